------------------------------ MODULE DistModel -----------------------------
(***************************************************************************)
(* Distributed basis expansion, every interleaving.  Nodes are product     *)
(* states, succ the reachability of one Hamiltonian application, prior the *)
(* process that already stores a node's column (0: nobody).  Each process  *)
(* is a program: look up the known columns of the frontier, send them to   *)
(* process 1 (which receives in order), get the list of unknown ones by    *)
(* broadcast, take its share, exchange the new nodes, go on.  Sends are    *)
(* either synchronous or buffered (constant Eager).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS K, P, Eager
Nodes == 1..K
Ranks == 1..P
VARIABLES succ, prior, seeds,     \* the instance
          pc, basis, front, fresh, mine, unknown, recvd, mail, share, round
vars == <<succ, prior, seeds, pc, basis, front, fresh, mine, unknown, recvd, mail, share, round>>
Init ==
  /\ succ \in [Nodes -> SUBSET Nodes] /\ prior \in [Nodes -> 0..P]
  /\ seeds \in {S \in SUBSET Nodes : Cardinality(S) = 1}
  /\ pc = [r \in Ranks |-> "lookup"]
  /\ basis = [r \in Ranks |-> seeds] /\ front = [r \in Ranks |-> seeds]
  /\ fresh = [r \in Ranks |-> {}]            \* new nodes found by r in this round
  /\ mine = [r \in Ranks |-> {}]             \* columns computed by r in this call
  /\ unknown = [r \in Ranks |-> {}] /\ recvd = [r \in Ranks |-> 1]
  /\ mail = {} /\ share = [r \in Ranks |-> {}] /\ round = 1
Known(r, n) == prior[n] = r
Lookup(r) == /\ pc[r] = "lookup"
             /\ IF front[r] = {} THEN pc' = [pc EXCEPT ![r] = "done"] /\ UNCHANGED <<fresh, unknown, recvd>>
                ELSE /\ fresh' = [fresh EXCEPT ![r] = UNION {succ[n] : n \in {m \in front[r] : Known(r, m)}} \ basis[r]]
                     /\ unknown' = [unknown EXCEPT ![r] = IF r = 1 THEN {n \in front[r] : ~Known(r, n)} ELSE {}]
                     /\ recvd' = [recvd EXCEPT ![r] = 2]
                     /\ pc' = [pc EXCEPT ![r] = IF r = 1 THEN (IF P = 1 THEN "bcast" ELSE "recv") ELSE "send"]
             /\ UNCHANGED <<succ, prior, seeds, basis, front, mine, mail, share, round>>
Msg(r) == {n \in front[r] : Known(r, n)}
\* buffered: the message goes into the mail and the sender moves on
SendE(r) == /\ Eager /\ pc[r] = "send" /\ mail' = mail \cup {<<r, Msg(r)>>} /\ pc' = [pc EXCEPT ![r] = "bcast"]
            /\ UNCHANGED <<succ, prior, seeds, basis, front, fresh, mine, unknown, recvd, share, round>>
RecvE == /\ Eager /\ pc[1] = "recv" /\ \E m \in mail : m[1] = recvd[1] /\ mail' = mail \ {m}
            /\ unknown' = [unknown EXCEPT ![1] = @ \ m[2]]
         /\ recvd' = [recvd EXCEPT ![1] = @ + 1]
         /\ pc' = [pc EXCEPT ![1] = IF recvd[1] = P THEN "bcast" ELSE "recv"]
         /\ UNCHANGED <<succ, prior, seeds, basis, front, fresh, mine, share, round>>
\* synchronous: sender and receiver meet
Meet == /\ ~Eager /\ pc[1] = "recv" /\ pc[recvd[1]] = "send"
        /\ unknown' = [unknown EXCEPT ![1] = @ \ Msg(recvd[1])]
        /\ recvd' = [recvd EXCEPT ![1] = @ + 1]
        /\ pc' = [pc EXCEPT ![1] = IF recvd[1] = P THEN "bcast" ELSE "recv", ![recvd[1]] = "bcast"]
        /\ UNCHANGED <<succ, prior, seeds, basis, front, fresh, mine, mail, share, round>>
\* broadcast of the unknown ones (a collective), then any exact division of them
Divisions(S) == [S -> Ranks]
Bcast == /\ \A r \in Ranks : pc[r] = "bcast"
         /\ \E d \in Divisions(unknown[1]) : share' = [r \in Ranks |-> {n \in unknown[1] : d[n] = r}]
         /\ pc' = [r \in Ranks |-> "work"] /\ UNCHANGED <<succ, prior, seeds, basis, front, fresh, mine, unknown, recvd, mail, round>>
Work(r) == /\ pc[r] = "work"
           /\ IF share[r] = {} THEN pc' = [pc EXCEPT ![r] = "exchange"] /\ UNCHANGED <<fresh, mine, share>>
              ELSE LET n == CHOOSE x \in share[r] : TRUE IN
                   /\ fresh' = [fresh EXCEPT ![r] = @ \cup (succ[n] \ basis[r])]
                   /\ mine' = [mine EXCEPT ![r] = @ \cup {n}] /\ share' = [share EXCEPT ![r] = @ \ {n}] /\ pc' = pc
           /\ UNCHANGED <<succ, prior, seeds, basis, front, unknown, recvd, mail, round>>
Exchange == /\ \A r \in Ranks : pc[r] = "exchange"
            /\ LET all == UNION {fresh[r] : r \in Ranks} IN
               /\ basis' = [r \in Ranks |-> basis[r] \cup all] /\ front' = [r \in Ranks |-> all]
            /\ pc' = [r \in Ranks |-> "lookup"] /\ fresh' = [r \in Ranks |-> {}] /\ round' = round + 1
            /\ UNCHANGED <<succ, prior, seeds, mine, unknown, recvd, mail, share>>
Next == \/ Bcast \/ Exchange \/ RecvE \/ Meet \/ \E r \in Ranks : Lookup(r) \/ SendE(r) \/ Work(r)
AllDone == \A r \in Ranks : pc[r] = "done"
RECURSIVE Clo(_, _)
Clo(S, T) == IF T = {} THEN S ELSE LET n == UNION {succ[x] : x \in T} \ (S \cup T) IN Clo(S \cup T, n)
NoDeadlock == AllDone \/ ENABLED Next
SameBasis == AllDone => \A r \in Ranks : basis[r] = Clo({}, seeds)
OneOwner == AllDone => \A n \in basis[1] :
              Cardinality({r \in Ranks : n \in mine[r] \/ Known(r, n)}) = 1
NothingLeft == AllDone => mail = {}
=============================================================================

----------------------------- MODULE PhaseModel -----------------------------
(***************************************************************************)
(* The parallel phases as message-passing programs, every instance and     *)
(* every interleaving.  A batch of states is treated one after the other;  *)
(* in the modes that distribute the Hamiltonian every process takes part   *)
(* in every state:  grow the basis (rounds of: send known to process 0,    *)
(* broadcast of the unknown, exchange of the new ones), assemble, Lanczos  *)
(* steps (reduce, broadcast).  What a process does may depend only on what *)
(* all processes know: emptiness of the state, number of rounds, size of   *)
(* the basis - and not on what only one process knows, as the exhaustion   *)
(* of the Krylov space (seen by process 0 alone).                          *)
(* Flaw = "none" is the design; the other values are flawed designs that   *)
(* the model must reject (checked as a test of the model).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NP, NStates, MaxRounds, MaxKrylov, Flaw
Coll(k, root, c) == [t |-> "coll", k |-> k, root |-> root, sig |-> "", c |-> c, peer |-> 0, tag |-> 0, s |-> FALSE]
Bc(k, root) == Coll(k, root, "out")
Send(d) == [t |-> "send", k |-> "send", root |-> 0, sig |-> "", c |-> "", peer |-> d, tag |-> 0, s |-> FALSE]
Recv(q) == [t |-> "recv", k |-> "recv", root |-> 0, sig |-> "", c |-> "", peer |-> q, tag |-> 0, s |-> FALSE]
RECURSIVE Cat(_, _)
Cat(f, n) == IF n = 0 THEN <<>> ELSE Cat(f, n - 1) \o f[n]
\* one round of basis growth at process r (numbered from 0)
Round(r) == (IF r = 0 THEN [q \in 1..(NP - 1) |-> Recv(q)] ELSE <<Send(0)>>)
            \o <<Bc("unknown", 0)>> \o [q \in 1..NP |-> Bc("new", q - 1)]
Assemble == <<Coll("reduce", 0, "in")>>
\* steps of the Krylov loop; it is exhausted after st.exhausted steps (0: never)
Lanczos(r, st) ==
  LET full == st.krylov
      n == IF Flaw = "exhaust" /\ r = 0 /\ st.exhausted > 0 /\ st.exhausted < full THEN st.exhausted ELSE full
  IN  <<Coll("reduce", 0, "in")>> \o Cat([j \in 1..(n - 1) |-> <<Bc("v", 0), Coll("reduce", 0, "in")>>], IF n = 0 THEN 0 ELSE n - 1)
\* a process that has no column skips the phase in the flawed design
One(r, st) == IF st.empty THEN <<>>
              ELSE IF Flaw = "nowork" /\ r >= st.columns THEN <<>>
              ELSE Cat([k \in 1..st.rounds |-> Round(r)], st.rounds) \o Assemble \o Lanczos(r, st)
\* modes that divide the tasks: everybody works alone, then all results are exchanged
Exchange(r, ntasks) == IF Flaw = "skip" /\ r >= ntasks THEN <<>> ELSE [q \in 1..NP |-> Bc("result", q - 1)]
States == [empty : BOOLEAN, rounds : 1..MaxRounds, krylov : 1..MaxKrylov, exhausted : {0, 1}, columns : {1, NP}]
Programs(y) == [r \in 1..NP |-> Cat([k \in 1..Len(y.states) |-> One(r - 1, y.states[k])], Len(y.states)) \o Exchange(r - 1, y.tasks)]
VARIABLES x, mode, pos, inside, mail, seqno, bad
S == INSTANCE MpiSem WITH Prog <- Programs, Modes <- LAMBDA y : {"sync", "eager"}
Init == /\ x \in [states : UNION {[1..n -> States] : n \in 1..NStates}, tasks : 0..NP]
        /\ S!SemInit
Next == S!SemNext
Good == bad \in {"no", "finished"} /\ S!SameCollectives(x)
=============================================================================

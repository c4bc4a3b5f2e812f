------------------------------- MODULE MpiSem -------------------------------
(***************************************************************************)
(* Semantics of a fixed set of message-passing programs.  Prog(x)[r] is    *)
(* the sequence of communication calls of process r:                       *)
(*   [t |-> "coll", k, root, sig, c]   c: "out" one process to all,        *)
(*                                     "in" all to one, "all" all to all   *)
(*   [t |-> "send", peer, tag, s]      s: synchronous also when buffering  *)
(*   [t |-> "isend", peer, tag], [t |-> "recv", peer, tag]  (-1: any)      *)
(* mode "sync": a send waits for its receive, a collective for everybody.  *)
(* mode "eager": messages are buffered and a process leaves a collective   *)
(* as soon as its own part is complete.  Every interleaving is a behaviour.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Prog(_), Modes(_)
VARIABLES x, mode, pos, inside, mail, seqno, bad
semvars == <<x, mode, pos, inside, mail, seqno, bad>>
P == Len(Prog(x))
Ranks == 1..P
SemInit == /\ mode \in Modes(x) /\ bad = "no"
           /\ pos = [r \in 1..Len(Prog(x)) |-> 1] /\ inside = [r \in 1..Len(Prog(x)) |-> FALSE]
           /\ mail = {} /\ seqno = 0
Done(r) == pos[r] > Len(Prog(x)[r])
Ev(r) == Prog(x)[r][pos[r]]
At(r, t) == ~Done(r) /\ Ev(r).t = t
\* number of collectives before position p
RECURSIVE NColl(_, _, _)
NColl(pr, p, n) == IF p = 0 THEN n ELSE NColl(pr, p - 1, IF pr[p].t = "coll" THEN n + 1 ELSE n)
Index(r) == NColl(Prog(x)[r], pos[r] - 1, 0) + 1
Entered(r, n) == LET k == Index(r) IN n < k \/ (n = k /\ inside[r])
\* the same sequence of collectives everywhere
Colls(pr) == SelectSeq(pr, LAMBDA e : e.t = "coll")
Same(e, f) == e.k = f.k /\ e.root = f.root /\ e.sig = f.sig /\ e.c = f.c
SameCollectives(z) ==
  LET a == Colls(Prog(z)[1]) IN
  \A r \in 2..Len(Prog(z)) : LET b == Colls(Prog(z)[r]) IN
     Len(a) = Len(b) /\ \A k \in 1..Len(a) : Same(a[k], b[k])
Adv(S) == pos' = [r \in Ranks |-> IF r \in S THEN pos[r] + 1 ELSE pos[r]]
\* synchronous collective
MeetColl == /\ mode = "sync" /\ \A r \in Ranks : At(r, "coll")      \* in this mode all have been through equally many
            /\ \A r \in Ranks : Same(Ev(r), Ev(1))
            /\ Adv(Ranks) /\ UNCHANGED <<inside, mail, seqno>>
Enter(r) == /\ mode = "eager" /\ At(r, "coll") /\ ~inside[r] /\ inside' = [inside EXCEPT ![r] = TRUE]
            /\ UNCHANGED <<pos, mail, seqno>>
Leave(r) == /\ mode = "eager" /\ At(r, "coll") /\ inside[r]
            /\ LET e == Ev(r) n == Index(r) IN
               CASE e.c = "out" -> e.root = r - 1 \/ Entered(e.root + 1, n)
                 [] e.c = "in" -> e.root # r - 1 \/ \A q \in Ranks : Entered(q, n)
                 [] OTHER -> \A q \in Ranks : Entered(q, n)
            /\ inside' = [inside EXCEPT ![r] = FALSE] /\ Adv({r}) /\ UNCHANGED <<mail, seqno>>
Fits(r, s, tag) == At(r, "recv") /\ Ev(r).peer \in {-1, s - 1} /\ Ev(r).tag \in {-1, tag}
Buffered(r) == At(r, "isend") \/ (At(r, "send") /\ mode = "eager" /\ ~Ev(r).s)
Post(r) == /\ Buffered(r) /\ mail' = mail \cup {[s |-> r, d |-> Ev(r).peer + 1, tag |-> Ev(r).tag, n |-> seqno]}
           /\ seqno' = seqno + 1 /\ Adv({r}) /\ UNCHANGED inside
\* messages of one sender do not overtake each other
Get(r) == /\ \E m \in mail : /\ m.d = r /\ Fits(r, m.s, m.tag)
                             /\ \A o \in mail : (o.d = r /\ o.s = m.s /\ Fits(r, o.s, o.tag)) => m.n <= o.n
                             /\ mail' = mail \ {m}
          /\ Adv({r}) /\ UNCHANGED <<inside, seqno>>
Meet(r, d) == /\ At(r, "send") /\ ~Buffered(r) /\ Ev(r).peer = d - 1 /\ Fits(d, r, Ev(r).tag)
              /\ ~\E m \in mail : m.d = d /\ m.s = r /\ Fits(d, r, m.tag)
              /\ Adv({r, d}) /\ UNCHANGED <<inside, mail, seqno>>
Act == MeetColl \/ \E r \in Ranks : Enter(r) \/ Leave(r) \/ Post(r) \/ Get(r) \/ \E d \in Ranks : Meet(r, d)
AllDone == \A r \in Ranks : Done(r)
Finish == /\ bad' = (IF ~AllDone THEN "deadlock" ELSE IF mail # {} THEN "message-not-received" ELSE "finished")
          /\ UNCHANGED <<pos, inside, mail, seqno>>
\* a step of the programs, or the end of the run
SemNext == /\ bad = "no" /\ UNCHANGED <<x, mode>>
           /\ (\/ Act /\ bad' = "no"
               \/ (~ENABLED Act) /\ Finish)
=============================================================================

------------------------------ MODULE C11Trace ------------------------------
(***************************************************************************)
(* Recorded communication of real runs.  The calls of every process must   *)
(* match, and no interleaving of them may get stuck or lose a message.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Dist, TraceData
VARIABLES x, mode, pos, inside, mail, seqno, bad
S == INSTANCE MpiSem WITH Prog <- LAMBDA y : Trace[y].log,
                          Modes <- LAMBDA y : IF Trace[y].eager THEN {"sync", "eager"} ELSE {"sync"}
First(r) == IF r.status = "mismatch" THEN "collectives-differ"
            ELSE IF r.status # "ok" THEN r.status
            ELSE IF ~AllRan(r) THEN "process-raised" ELSE "ok"
Init == x \in 1..NTrace /\ S!SemInit
Report(v) == PrintT(<<"REJECT", x, v>>)
Judge(y) == LET f == First(Trace[y]) IN
            IF f # "ok" THEN f ELSE IF ~S!SameCollectives(y) THEN "collectives-differ" ELSE "ok"
\* the static clauses at the start, then every interleaving
Next == IF seqno = 0 /\ bad = "no" /\ (\A r \in DOMAIN pos : pos[r] = 1 /\ ~inside[r]) /\ Judge(x) # "ok"
        THEN bad' = Judge(x) /\ Report(bad') /\ UNCHANGED <<x, mode, pos, inside, mail, seqno>>
        ELSE S!SemNext /\ (bad' \in {"no", "finished"} \/ Report(bad'))
Accepted == bad \in {"no", "finished"}
=============================================================================

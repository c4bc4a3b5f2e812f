------------------------------ MODULE EigenGen ------------------------------
\* Spectra with every pattern of degeneracies, how many states are asked for, the method and the number of processes.
EXTENDS Integers, Sequences, TLC, Json
VARIABLES s, done
Levels == UNION {[1..n -> {-3, 0, 1}] : n \in 3..6}
Init == /\ done = FALSE
        /\ s \in [levels : Levels, num : 1..6, diag : {"full", "Lanczos"}, cplx : {TRUE, FALSE}]
        /\ (\A k \in 1..(Len(s.levels) - 1) : s.levels[k] <= s.levels[k + 1])
        /\ s.num <= Len(s.levels) - (IF s.diag = "Lanczos" THEN 2 ELSE 0)
Next == ~done /\ done' = TRUE /\ s' = s /\ PrintT(<<"SCN", ToJson(s)>>)
=============================================================================

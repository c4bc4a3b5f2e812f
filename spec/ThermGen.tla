------------------------------- MODULE ThermGen -----------------------------
\* Sets of energies (in units of 10 meV, unsorted, degenerate), temperature and shape of the observable.
EXTENDS Integers, Sequences, TLC, Json
VARIABLES s, done
Es == UNION {[1..n -> {-4, 0, 1, 9}] : n \in 1..4}
Init == /\ done = FALSE
        /\ s \in [es : Es, T : {1, 300, 3000, 100000}, shape : {"scalar", "vector", "matrix", "complex"}]
Next == ~done /\ done' = TRUE /\ s' = s /\ PrintT(<<"SCN", ToJson(s)>>)
=============================================================================

----------------------------- MODULE LanczosGen -----------------------------
\* Small Hermitian matrices and start vectors for the real Lanczos loop.
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Lo, Hi
VARIABLES s, done
Ix == 1..N
Init == /\ done = FALSE
        /\ s \in [h : {M \in [Ix -> [Ix -> (-Lo)..Hi]] : \A p, q \in Ix : M[p][q] = M[q][p]}, e : Ix]
Next == ~done /\ done' = TRUE /\ s' = s /\ PrintT(<<"SCN", ToJson(s)>>)
=============================================================================

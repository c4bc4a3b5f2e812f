------------------------------ MODULE BasisGen ------------------------------
\* Prints every setting of one small shell, impossible ones included.
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Ls, MaxB, MaxD, N0s
VARIABLES sh, done
Init == done = FALSE /\ \E l \in Ls, nb \in 0..MaxB, nv \in 0..(MaxB + 1), dv \in 0..MaxD, dc \in 0..MaxD, tol \in 0..MaxD, n0 \in N0s :
          sh = [l |-> l, nb |-> nb, nv |-> nv, dv |-> dv, dc |-> dc, tol |-> tol, n0 |-> n0]
Next == ~done /\ done' = TRUE /\ sh' = sh /\ PrintT(<<"SCN", ToJson(sh)>>)
=============================================================================

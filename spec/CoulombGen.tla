----------------------------- MODULE CoulombGen -----------------------------
\* Blocks of the Coulomb operator: four shells and one multipole (the operator is linear in the integrals).
EXTENDS Integers, Sequences, TLC, Json
CONSTANT L
VARIABLES s, done
Init == /\ done = FALSE /\ s \in [l : [1..4 -> 0..L], k : 0..(2 * L)] /\ s.k <= s.l[1] + s.l[4] /\ s.k <= s.l[2] + s.l[3]
Next == ~done /\ done' = TRUE /\ s' = s /\ PrintT(<<"SCN", ToJson(s)>>)
=============================================================================

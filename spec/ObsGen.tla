------------------------------- MODULE ObsGen -------------------------------
\* Superpositions c_i^dagger + phase c_j^dagger of the d shell: every element of the density matrix, with both
\* conjugations; and the order of the shells and the bath sizes.
EXTENDS Integers, Sequences, TLC, Json
VARIABLES s, done
Init == /\ done = FALSE /\ s \in [i : 0..9, j : 0..9, ph : 0..3, shells : {<<2>>, <<1, 2>>, <<2, 1>>, <<0, 2>>}, nb : 0..1]
        /\ s.i < s.j
Next == ~done /\ done' = TRUE /\ s' = s /\ PrintT(<<"SCN", ToJson(s)>>)
=============================================================================

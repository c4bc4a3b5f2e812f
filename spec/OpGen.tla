-------------------------------- MODULE OpGen -------------------------------
\* Prints every (term, product state) pair of the bounded operator space as a scenario.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS N, MaxLen
VARIABLES term, occ, done
Orb == 0..(N - 1)
Init == /\ \E k \in 0..MaxLen : term \in [1..k -> Orb \X {"c", "a"}]
        /\ occ \in SUBSET Orb /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<term, occ>>
        /\ PrintT(<<"SCN", ToJson([n |-> N, term |-> term, occ |-> SetToSortSeq(occ, <)])>>)
=============================================================================

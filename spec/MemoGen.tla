------------------------------- MODULE MemoGen ------------------------------
\* Prints every history of calls: which product states each call's state contains,
\* whether the caller edits the returned state in between.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS N, Depth
VARIABLES hist
PS == SUBSET (0..(N - 1))
Enc(S) == [k \in 1..Cardinality(S) |-> SetToSortSeq(SetToSeq(S)[k], <)]
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E S \in SUBSET PS, e \in BOOLEAN :
             /\ S # {}
             /\ hist' = Append(hist, [ps |-> Enc(S), edit |-> e])
        /\ (Len(hist') < Depth \/ PrintT(<<"SCN", ToJson([n |-> N, calls |-> hist'])>>))
=============================================================================

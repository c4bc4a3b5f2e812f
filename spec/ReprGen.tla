------------------------------- MODULE ReprGen ------------------------------
\* Prints every chain of conversions of the given length as a scenario.
EXTENDS ReprModel, TLC, Json, SequencesExt
CONSTANTS Depth, Ns
VARIABLE path
GInit == Init /\ n \in Ns /\ path = <<form>>
GNext == /\ Len(path) < Depth
         /\ Next /\ path' = Append(path, form')
         /\ (Len(path') < Depth \/ PrintT(<<"SCN", ToJson([n |-> n, occ |-> SetToSortSeq(occ, <), path |-> path'])>>))
=============================================================================

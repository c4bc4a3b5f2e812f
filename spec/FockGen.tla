------------------------------ MODULE FockGen -------------------------------
\* Prints every history of Depth attempted steps (blocked ones too) as a scenario.
EXTENDS FockModel, Json, SequencesExt
CONSTANT Depth
VARIABLE att
GInit == Init /\ att = <<>>
GNext == /\ Len(att) < Depth
         /\ \E act \in Acts, i \in Orb :
              /\ att' = Append(att, <<act, i>>)
              /\ LET r == Step(act, i, occ) IN occ' = IF r[1] = 0 THEN occ ELSE r[2]
              /\ UNCHANGED <<occ0, sg, hist>>
         /\ (Len(att') < Depth \/ PrintT(<<"SCN", ToJson([n |-> N, occ |-> SetToSortSeq(occ0, <), steps |-> att'])>>))
=============================================================================

------------------------------ MODULE ShareGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxT, MaxP
VARIABLES n, p, done
Init == n \in 0..MaxT /\ p \in 1..MaxP /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<n, p>> /\ PrintT(<<"SCN", ToJson([n |-> n, p |-> p])>>)
=============================================================================

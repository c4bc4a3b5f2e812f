------------------------------ MODULE BatchGen ------------------------------
\* Batches: sequences of states (of four) and operators (of four; the last annihilates), any order, repetitions.
EXTENDS Integers, Sequences, TLC, Json
CONSTANT M
VARIABLES s, done
Seqs(n) == UNION {[1..k -> 1..4] : k \in 1..n}
Init == /\ done = FALSE /\ s \in [states : Seqs(M), ops : Seqs(2)]
Next == ~done /\ done' = TRUE /\ s' = s /\ PrintT(<<"SCN", ToJson(s)>>)
=============================================================================

------------------------------- MODULE TransGen -----------------------------
\* Configurations of the transition operators: shells, multipole cut-off, direction of the momentum transfer
\* (the 26 directions with components -1, 0, 1), and polarizations.
EXTENDS Integers, Sequences, TLC, Json
CONSTANT L
VARIABLES s, done
Dir == [1..3 -> (-1)..1]
Init == /\ done = FALSE
        /\ s \in [kind : {"nixs"}, li : 0..L, lj : 0..L, kmin : 0..3, q : Dir] \cup
                 [kind : {"dip"}, li : 0..L, lj : 0..L, kmin : {0}, q : [1..3 -> 0..4]]
        /\ s.q # [k \in 1..3 |-> 0]
        /\ (s.kind = "dip" => s.li # s.lj)
Next == ~done /\ done' = TRUE /\ s' = s /\ PrintT(<<"SCN", ToJson(s)>>)
=============================================================================

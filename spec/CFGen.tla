------------------------------- MODULE CFGen --------------------------------
\* Crystal-field inputs: which parameters the file gives, conduction baths or not, the bath basis,
\* the order of the shells and whether the p shell has baths of its own.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES s, done
Names == <<"e_imp", "e_deltaO_imp", "e_val_eg", "e_val_t2g", "e_con_eg", "e_con_t2g", "v_val_eg", "v_val_t2g", "v_con_eg", "v_con_t2g">>
RECURSIVE Sub(_, _)
Sub(S, k) == IF k > 10 THEN <<>> ELSE (IF k \in S THEN <<Names[k]>> ELSE <<>>) \o Sub(S, k + 1)
Init == /\ done = FALSE
        /\ \E G \in {G \in SUBSET (1..10) : Cardinality(G) \in {0, 1, 2, 8, 9, 10}} : \E con \in {TRUE, FALSE} : \E b \in {"spherical", "cubic"} :
           \E sh \in {<<1, 2>>, <<2, 1>>} : \E pb \in {0, 4} : s = [given |-> Sub(G, 1), con |-> con, basis |-> b, shells |-> sh, pbath |-> pb]
Next == ~done /\ done' = TRUE /\ s' = s /\ PrintT(<<"SCN", ToJson(s)>>)
=============================================================================

----------------------------- MODULE ExpandModel ----------------------------
(***************************************************************************)
(* Basis expansion with a column store, one product state at a time in any *)
(* order; a column is taken from the store if it is there.  At the end the *)
(* basis is the closure of the seeds, whatever the store held before, and  *)
(* the store has a right column for every basis state.                     *)
(***************************************************************************)
EXTENDS Fock
CONSTANTS N
VARIABLES op, restr, seeds, store, basis, done, missing
vars == <<op, restr, seeds, store, basis, done, missing>>
PS == SUBSET (0..(N - 1))
Hop(i, j) == << [t |-> << <<i, "c">>, <<j, "a">> >>, v |-> CxOne], [t |-> << <<j, "c">>, <<i, "a">> >>, v |-> CxOne] >>
Ops == { Hop(0, 1), Hop(0, 1) \o Hop(1, 2), << [t |-> << <<0, "c">>, <<0, "a">> >>, v |-> CxInt(2)] >>,
         << [t |-> << <<2, "c">>, <<0, "a">> >>, v |-> CxI] >> }
Restrs == { <<>>, <<[o |-> {0}, lo |-> 0, hi |-> 0]>>, <<[o |-> {1, 2}, lo |-> 1, hi |-> 1]>> }
Column(s) == ApplyOpR(op, (s :> CxOne), restr)
Reach(col) == DOMAIN col
Init == /\ op \in Ops /\ restr \in Restrs
        /\ seeds \in {S \in SUBSET PS : Cardinality(S) \in 1..2}
        /\ \E K \in {S \in SUBSET PS : Cardinality(S) <= 2} : store = [s \in K |-> Column(s)]
        /\ basis = seeds /\ done = {} /\ missing = {}
Expand(s) ==
  /\ s \in basis \ done
  /\ LET col == IF s \in DOMAIN store THEN store[s] ELSE Column(s)
     IN  /\ store' = IF s \in DOMAIN store THEN store ELSE store @@ (s :> col)
         /\ basis' = basis \cup Reach(col)
  /\ done' = done \cup {s}
  /\ UNCHANGED <<op, restr, seeds, missing>>
Next == \E s \in basis : Expand(s)
IsClosure == done = basis => basis = Closure(op, restr, seeds)
StoreRight == /\ \A s \in DOMAIN store : store[s] = Column(s)
              /\ (done = basis => basis \subseteq DOMAIN store)
NeverTooMuch == basis \subseteq Closure(op, restr, seeds)
=============================================================================

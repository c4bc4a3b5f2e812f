----------------------------- MODULE BasisModel -----------------------------
(***************************************************************************)
(* The allowed configurations as a process: start from a nominal           *)
(* configuration, let electrons hop from the valence baths to the impurity *)
(* and from the impurity to the conduction baths.  Every configuration     *)
(* reached within the limits is declared, and conserves the electrons.     *)
(***************************************************************************)
EXTENDS Basis
CONSTANTS Ls, MaxB, MaxD
VARIABLES sh, imp, val, con
vars == <<sh, imp, val, con>>
S == <<sh>>
Init == /\ \E l \in Ls, nb \in 0..MaxB, nv \in 0..MaxB, dv \in 0..MaxD, dc \in 0..MaxD, tol \in 0..MaxD : \E n0 \in 0..(2 * (2 * l + 1)) :
             /\ nv <= nb
             /\ sh = [l |-> l, nb |-> nb, nv |-> nv, dv |-> dv, dc |-> dc, tol |-> tol, n0 |-> n0]
             /\ ~MayRefuse(<<sh>>)
        /\ imp \in Sub(ImpSet(S, 1), sh.n0) /\ val = ValSet(S, 1) /\ con = {}
FromValence == \E v \in val, a \in ImpSet(S, 1) \ imp :
   /\ sh.nv - Cardinality(val) < sh.dv
   /\ val' = val \ {v} /\ imp' = imp \cup {a} /\ UNCHANGED <<sh, con>>
ToConduction == \E a \in imp, c \in ConSet(S, 1) \ con :
   /\ Cardinality(con) < sh.dc
   /\ con' = con \cup {c} /\ imp' = imp \ {a} /\ UNCHANGED <<sh, val>>
Next == FromValence \/ ToConduction
Declared == Abs(Cardinality(imp) - sh.n0) <= sh.tol => (imp \cup val \cup con) \in Configs(S)
Conserved == Cardinality(imp \cup val \cup con) = sh.n0 + sh.nv
AllConserved == \A x \in Configs(S) : Cardinality(x) = sh.n0 + sh.nv
=============================================================================

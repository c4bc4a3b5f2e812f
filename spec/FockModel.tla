----------------------------- MODULE FockModel ------------------------------
(***************************************************************************)
(* Histories of elementary steps on a product state of N spin-orbitals.    *)
(* Checked: the canonical anticommutation relations at every reachable     *)
(* state, and that undoing the history gives the first state back with     *)
(* sign +1 overall.                                                        *)
(***************************************************************************)
EXTENDS Fock
CONSTANTS N, MaxSteps
VARIABLES occ0, occ, sg, hist
vars == <<occ0, occ, sg, hist>>
Orb == 0..(N - 1)
Acts == {"c", "a"}
Init == occ0 \in SUBSET Orb /\ occ = occ0 /\ sg = 1 /\ hist = <<>>
Do(act, i) == LET r == Step(act, i, occ) IN
  /\ r[1] # 0
  /\ occ' = r[2] /\ sg' = sg * r[1] /\ hist' = <<<<i, act>>>> \o hist /\ UNCHANGED occ0
Next == Len(hist) < MaxSteps /\ \E act \in Acts, i \in Orb : Do(act, i)
TypeOK == occ \subseteq Orb /\ sg \in {-1, 1}
\* the history, read as one operator term, gives the same result
TermAgrees == ApplyTerm(hist, occ0) = <<sg, occ>>
\* the adjoint history leads back
Reversible == ApplyTerm(DaggerTerm(hist), occ) = <<sg, occ0>>
\* {c_i, c_j^+} = delta_ij, {c_i, c_j} = 0, {c_i^+, c_j^+} = 0 on |occ>
TwoStep(a1, i, a2, j) == ApplyTerm(<< <<i, a1>>, <<j, a2>> >>, occ)      \* a2 acts first
Anti(a1, i, a2, j) ==    \* the sum of the two orders as <<target, coefficient>> pairs
  LET x == TwoStep(a1, i, a2, j)
      y == TwoStep(a2, j, a1, i)
  IN  IF x[1] # 0 /\ y[1] # 0 THEN (IF x[2] = y[2] THEN <<x[1] + y[1], x[2]>> ELSE <<9, occ>>)
      ELSE IF x[1] # 0 THEN x ELSE y
CAR == \A i, j \in Orb :
         /\ Anti("a", i, "c", j) = IF i = j THEN <<1, occ>> ELSE <<0, Anti("a", i, "c", j)[2]>>
         /\ Anti("a", i, "a", j)[1] = 0
         /\ Anti("c", i, "c", j)[1] = 0
=============================================================================

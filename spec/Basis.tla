-------------------------------- MODULE Basis -------------------------------
(***************************************************************************)
(* The starting basis.  A shell is [l, nb, nv, dv, dc, tol, n0]: angular   *)
(* momentum, bath orbitals, valence bath orbitals, most holes in the       *)
(* valence bath, most electrons in the conduction bath, tolerance around   *)
(* the nominal impurity occupation n0.                                     *)
(***************************************************************************)
EXTENDS Layout, FiniteSets
Sys(shells) == [g \in 1..Len(shells) |-> [ls |-> <<shells[g].l>>, nb |-> shells[g].nb, tup |-> FALSE]]
ImpSet(shells, g) == {Imp(Sys(shells), shells[g].l, s, m) : s \in 0..1, m \in (-shells[g].l)..shells[g].l}
BathAt(shells, g, b) == Index(Sys(shells), <<"bath", <<shells[g].l>>, FALSE, b>>)
ValSet(shells, g) == {BathAt(shells, g, b) : b \in 0..(shells[g].nv - 1)}
ConSet(shells, g) == {BathAt(shells, g, b) : b \in shells[g].nv..(shells[g].nb - 1)}
Abs(x) == IF x < 0 THEN -x ELSE x
Parts(sh) == {p \in (0..sh.dv) \X (0..sh.dc) : Abs(p[1] - p[2]) <= sh.tol}
PartOK(sh, p) == /\ p[1] <= sh.nv /\ p[2] <= sh.nb - sh.nv
                 /\ sh.n0 + p[1] - p[2] \in 0..(2 * (2 * sh.l + 1))
Sub(S, k) == {x \in SUBSET S : Cardinality(x) = k}
ShellConfigs(shells, g) ==
  LET sh == shells[g] IN
  UNION { {a \cup v \cup c : a \in Sub(ImpSet(shells, g), sh.n0 + p[1] - p[2]),
                             v \in Sub(ValSet(shells, g), sh.nv - p[1]),
                             c \in Sub(ConSet(shells, g), p[2])} : p \in Parts(sh) }
RECURSIVE Combine(_, _)
Combine(shells, g) == IF g = 0 THEN {{}}
                      ELSE {x \cup y : x \in Combine(shells, g - 1), y \in ShellConfigs(shells, g)}
Configs(shells) == Combine(shells, Len(shells))
MustRefuse(shells) == \E g \in 1..Len(shells) :
   \/ shells[g].nv > shells[g].nb
   \/ \E p \in Parts(shells[g]) : ~PartOK(shells[g], p)
\* settings with an impossible partition that the tolerance excludes may be refused or not
MayRefuse(shells) == MustRefuse(shells) \/
   \E g \in 1..Len(shells) : \E p \in (0..shells[g].dv) \X (0..shells[g].dc) : ~PartOK(shells[g], p)
=============================================================================

-------------------------------- MODULE Cubic -------------------------------
(***************************************************************************)
(* Cubic harmonics of a p or d shell and the observables of a d shell.     *)
(***************************************************************************)
EXTENDS Angular
\* real harmonics as functions m -> amplitude of Y_lm; order: p: y, x, z; d: 3z^2-r^2, x^2-y^2, yz, xz, xy
R2 == FxSqrt(FxHalf)
Real0(l) == (0 :> CxOne)
RealC(l, m) == ((-m) :> CxR(R2)) @@ (m :> CxR(IF m % 2 = 0 THEN R2 ELSE FxNeg(R2)))                       \* ~ cos m phi
RealS(l, m) == ((-m) :> <<FxZero, R2>>) @@ (m :> <<FxZero, IF m % 2 = 0 THEN FxNeg(R2) ELSE R2>>)     \* ~ sin m phi
CubicList(l) == IF l = 1 THEN <<RealS(1, 1), RealC(1, 1), Real0(1)>>
                ELSE <<Real0(2), RealC(2, 2), RealS(2, 1), RealC(2, 1), RealS(2, 2)>>
EgOf == {1, 2}
\* overlap of the harmonic f with the vector v (function m -> amplitude)
Over(f, v) == CxSum([k \in 1..Len(SeqOf(DOMAIN f, <<>>)) |-> LET m == SeqOf(DOMAIN f, <<>>)[k] IN CxMul(CxConj(f[m]), IF m \in DOMAIN v THEN v[m] ELSE CxZero)])

\* ---- expectation values; psi over the numbered orbitals
Expect(op, psi) == Inner(psi, ApplyOp(op, psi))
Hop(i, j) == << [t |-> << <<i, "c">>, <<j, "a">> >>, v |-> CxOne] >>      \* c_i^dagger c_j
DensEl(psi, i, j) == Expect(Hop(j, i), psi)                              \* n_ij = <c_j^dagger c_i>
Sq(op, psi) == LET x == ApplyOp(op, psi) IN Norm2(x)
\* <L^2> = <L- L+> + <Lz^2> + <Lz>
LSqr(shells, psi) == FxAdd(FxAdd(Sq(Lp(shells, {2}), psi), Sq(Lz(shells, {2}), psi)), Expect(Lz(shells, {2}), psi)[1])
SSqr(shells, psi) == FxAdd(FxAdd(Sq(Sp(shells, {2}), psi), Sq(Sz(shells, {2}), psi)), Expect(Sz(shells, {2}), psi)[1])
CountOp(shells, l) == SeqOf({Term1(shells, o, o, CxOne) : o \in {x \in Orbs(shells) : x[1] = l}}, <<>>)
\* occupation of the d harmonics in S (indices of CubicList(2)) with spin s: Sum |<harmonic|n|harmonic>|
CubOp(shells, c, s) == LET f == CubicList(2)[c]
                       IN  SeqOf({Term1(shells, <<2, s, q[1]>>, <<2, s, q[2]>>, CxMul(f[q[1]], CxConj(f[q[2]]))) : q \in (DOMAIN f) \X (DOMAIN f)}, <<>>)
\* |<c_b^dagger c_a>| of two harmonics with spin, a = <<spin, number>>: independent of the phases of the harmonics
CubCoherence(shells, a, b, psi) ==
  LET f == CubicList(2)[a[2]] g == CubicList(2)[b[2]]
      op == SeqOf({Term1(shells, <<2, b[1], q[1]>>, <<2, a[1], q[2]>>, CxMul(g[q[1]], CxConj(f[q[2]]))) : q \in (DOMAIN g) \X (DOMAIN f)}, <<>>)
  IN  FxSqrt(CxAbs2(Expect(op, psi)))
CubOcc(shells, S, s, psi) == CxSum([k \in 1..5 |-> IF k \in S THEN Expect(CubOp(shells, k, s), psi) ELSE CxZero])
=============================================================================

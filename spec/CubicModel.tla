----------------------------- MODULE CubicModel -----------------------------
(***************************************************************************)
(* The cubic harmonics have the symmetries of the functions they are named *)
(* after; the operators of the observables satisfy the algebra of angular  *)
(* momentum on every one- and two-electron state of the shell.             *)
(***************************************************************************)
EXTENDS Cubic
VARIABLES s, ok
Tol == FxPico(1)
C(f, m) == IF m \in DOMAIN f THEN f[m] ELSE CxZero
Ms(l) == (-l)..l
IPow(n) == CASE n % 4 = 0 -> CxOne [] n % 4 = 1 -> CxI [] n % 4 = 2 -> CxNeg(CxOne) [] OTHER -> CxNeg(CxI)
\* actions on the coefficients (up to the direction of rotation)
C4z(f, l) == [m \in Ms(l) |-> CxMul(IPow(m + 8), C(f, m))]
C2x(f, l) == [m \in Ms(l) |-> CxScale(C(f, -m), Parity(l))]
TimeRev(f, l) == [m \in Ms(l) |-> CxScale(CxConj(C(f, -m)), Parity(Abs(m)))]
Eigen(g, f, l, n) == \A m \in Ms(l) : CxClose(g[m], CxScale(C(f, m), n), Tol)
Sym(l, k, c2z, c2x) == LET f == CubicList(l)[k] IN
  /\ Eigen(TimeRev(f, l), f, l, 1) /\ Eigen(C2x(f, l), f, l, c2x) /\ Eigen(C4z(C4z(f, l), l), f, l, c2z)
  /\ FxClose(Over(f, f)[1], FxOne, Tol)
HarmonicsRight ==
  /\ Sym(1, 1, -1, -1) /\ Sym(1, 2, -1, 1) /\ Sym(1, 3, 1, -1)                                   \* y x z
  /\ Sym(2, 1, 1, 1) /\ Sym(2, 2, 1, 1) /\ Sym(2, 3, -1, 1) /\ Sym(2, 4, -1, -1) /\ Sym(2, 5, 1, -1)
  /\ Eigen(C4z(CubicList(2)[1], 2), CubicList(2)[1], 2, 1) /\ Eigen(C4z(CubicList(2)[2], 2), CubicList(2)[2], 2, -1)
  /\ Eigen(C4z(CubicList(2)[5], 2), CubicList(2)[5], 2, -1)
Sh == <<2>>
Orb == {Ix(Sh, o) : o \in Orbs(Sh)}
D == {2}
Comm(a, b, x) == AddStates(ApplyOp(a, ApplyOp(b, x)), ApplyOp(b, ApplyOp(a, x)), CxInt(-1))
Algebra(p, m, z, x) ==
  /\ StateClose(Comm(p, m, x), ScaleState(ApplyOp(z, x), CxInt(2)), Tol)
  /\ StateClose(Comm(z, p, x), ApplyOp(p, x), Tol)
  /\ StateClose(Comm(z, m, x), ScaleState(ApplyOp(m, x), CxInt(-1)), Tol)
TotalsAgree(x) ==
  LET n == Expect(CountOp(Sh, 2), x)
      occ == [k \in 1..4 |-> CubOcc(Sh, IF k <= 2 THEN EgOf ELSE (1..5) \ EgOf, (k + 1) % 2, x)]
  IN  CxClose(CxSum(occ), n, Tol) /\ CxClose(CxSum([k \in 1..10 |-> DensEl(x, k - 1, k - 1)]), n, Tol)
Good(x) ==
  /\ Algebra(Lp(Sh, D), Lm(Sh, D), Lz(Sh, D), x) /\ Algebra(Sp(Sh, D), Sm(Sh, D), Sz(Sh, D), x)
  /\ FxClose(LSqr(Sh, x), FxAdd(FxAdd(Sq(Lm(Sh, D), x), Sq(Lz(Sh, D), x)), FxNeg(Expect(Lz(Sh, D), x)[1])), Tol)
  /\ TotalsAgree(x)
Init == /\ s \in ({{i} : i \in Orb} \cup {{a, b} : a, b \in Orb}) /\ ok = "todo"
Next == ok = "todo" /\ s' = s /\ ok' = (IF ~HarmonicsRight THEN "harmonics" ELSE IF ~Good((s :> CxOne)) THEN "algebra" ELSE "ok")
Right == ok \in {"todo", "ok"}
=============================================================================

--------------------------- MODULE HarmonicsModel ---------------------------
(***************************************************************************)
(* The harmonics satisfy the addition theorem, the Bessel functions their  *)
(* recurrence, and both together the plane-wave expansion; C1 is r/r, so   *)
(* the dipole elements are those of n.r/r.                                 *)
(***************************************************************************)
EXTENDS Harmonics
CONSTANT ND   \* how many directions are combined
VARIABLES q, ok
FirstOf(cl) == IF \A k \in 1..Len(cl) : cl[k][2] THEN "ok" ELSE cl[CHOOSE k \in 1..Len(cl) : ~cl[k][2]][1]
DirList == <<<<3, 4, 0, 5>>, <<0, 0, 1, 1>>, <<0, 0, -1, 1>>, <<-1, 0, 0, 1>>, <<2, -3, 6, 7>>, <<-4, -7, 4, 9>>, <<0, -5, 12, 13>>, <<1, 1, 0, 0>> >>
Dirs == {DirList[k] : k \in 1..ND}
Unit(d) == IF d[4] = 0 THEN <<FxSqrt(FxHalf), FxSqrt(FxHalf), FxZero>> ELSE <<FxRat(d[1], d[4]), FxRat(d[2], d[4]), FxRat(d[3], d[4])>>
Dot(a, b) == FxAdd(FxMul(a[1], b[1]), FxAdd(FxMul(a[2], b[2]), FxMul(a[3], b[3])))
Tol == FxPico(1)
Addition(a, b) == \A k \in 0..(2 * LMax) :
   CxClose(CxSum([x \in 1..(2 * k + 1) |-> CxMul(CxConj(CDir(k, x - 1 - k, a)), CDir(k, x - 1 - k, b))]), CxR(Horner(PolFx[k][0], Dot(a, b), 1)), Tol)
Xs == {FxRat(n, 3) : n \in {1, 4, 9, 14, 20}}
Recurrence == \A x \in Xs : \A k \in 1..6 : FxClose(FxMul(x, FxAdd(JBessel(k - 1, x), JBessel(k + 1, x))), FxScale(JBessel(k, x), 2 * k + 1), Tol)
RECURSIVE CosSin(_, _, _, _)
CosSin(x, n, term, acc) == \* exp(ix)
  IF CxIsZero(term) \/ n > 80 THEN acc
  ELSE LET t == CxMul(CxMul(term, <<FxZero, x>>), CxR(FxRat(1, n))) IN CosSin(x, n + 1, t, CxAdd(acc, t))
ExpI(x) == CosSin(x, 1, CxOne, CxOne)
J0Right == \A x \in Xs : FxClose(FxMul(x, JBessel(0, x)), ExpI(x)[2], Tol)
\* exp(i x a.b) = Sum (2k+1) i^k j_k(x) P_k(a.b); x small enough for six multipoles
PlaneWave(a, b) == LET x == FxRat(1, 50) IN
   CxClose(CxSum([y \in 1..7 |-> CxScaleFx(CxScale(IPow(y - 1), 2 * y - 1), FxMul(JBessel(y - 1, x), Horner(PolFx[y - 1][0], Dot(a, b), 1)))]), ExpI(FxMul(x, Dot(a, b))), Tol)
C1IsR(a) == CxClose(CDir(1, 0, a), CxR(a[3]), Tol) /\ CxClose(CDir(1, 1, a), CxScaleFx(<<FxNeg(a[1]), FxNeg(a[2])>>, FxSqrt(FxHalf)), Tol)
\* the l = 0 -> 1 elements of n.r/r are n read in the basis Y_1m / sqrt(3)
DipoleRight(a) == LET n == <<CxR(a[1]), CxR(a[2]), CxR(a[3])>> IN
   \A m \in (-1)..1 : CxClose(DipEl(n, 1, m, 0, 0), CxScaleFx(CxConj(CDir(1, m, a)), FxSqrt(FxRat(1, 3))), Tol)
Init == q \in Dirs \X Dirs /\ ok = "todo"
Next == /\ ok = "todo" /\ q' = q
        /\ ok' = LET a == Unit(q[1]) b == Unit(q[2]) IN
             FirstOf(<< <<"addition", Addition(a, b)>>, <<"bessel", q[1] # q[2] \/ (Recurrence /\ J0Right)>>, <<"plane-wave", PlaneWave(a, b)>>,
                        <<"c1", C1IsR(a)>>, <<"dipole", DipoleRight(a)>> >>)
Right == ok \in {"todo", "ok"}
=============================================================================

------------------------------ MODULE Harmonics -----------------------------
(***************************************************************************)
(* Legendre polynomials (exact), spherical harmonics C_km of a direction    *)
(* and spherical Bessel functions.                                         *)
(***************************************************************************)
EXTENDS Angular
\* polynomials in x: sequence of rational coefficients, power = index - 1
PAdd(a, b) == [k \in 1..Max2(Len(a), Len(b)) |-> RAdd(IF k <= Len(a) THEN a[k] ELSE RZero, IF k <= Len(b) THEN b[k] ELSE RZero)]
RECURSIVE Conv(_, _, _, _)
Conv(a, b, n, k) == IF k > n THEN RZero
                    ELSE RAdd(IF k <= Len(a) /\ n + 1 - k <= Len(b) THEN RMul(a[k], b[n + 1 - k]) ELSE RZero, Conv(a, b, n, k + 1))
PMul(a, b) == TLCEval([n \in 1..(Len(a) + Len(b) - 1) |-> Conv(a, b, n, 1)])
PScale(a, r) == [k \in 1..Len(a) |-> RMul(r, a[k])]
X == <<RZero, ROne>>
RECURSIVE Leg(_)
Leg(l) == IF l = 0 THEN <<ROne>> ELSE IF l = 1 THEN X
          ELSE TLCEval(PScale(PAdd(PScale(PMul(X, Leg(l - 1)), RInt(2 * l - 1)), PScale(Leg(l - 2), RInt(-(l - 1)))), RNorm(BOne, BInt(l))))
Deriv(a) == IF Len(a) = 1 THEN <<RZero>> ELSE [k \in 1..(Len(a) - 1) |-> RMul(RInt(k), a[k + 1])]
RECURSIVE DerN(_, _)
DerN(a, n) == IF n = 0 THEN a ELSE DerN(TLCEval(Deriv(a)), n - 1)
\* P_l^|m| without (-1)^m and without the factor (1-x^2)^(|m|/2)
Pol(l, m) == DerN(Leg(l), Abs(m))
PolFx == TLCEval([l \in 0..(2 * LMax) |-> [m \in 0..l |-> LET p == Pol(l, m) IN TLCEval([k \in 1..Len(p) |-> RFx(p[k])])]])
RECURSIVE Horner(_, _, _)
Horner(p, x, k) == IF k > Len(p) THEN FxZero ELSE FxAdd(p[k], FxMul(x, Horner(p, x, k + 1)))
RECURSIVE CxPow(_, _)
CxPow(z, n) == IF n = 0 THEN CxOne ELSE CxMul(z, CxPow(z, n - 1))
\* C_km = sqrt(4 pi/(2k+1)) Y_km at the unit vector e = <<x, y, z>>, Condon-Shortley phase
NormTab == TLCEval([k \in 0..(2 * LMax) |-> [m \in 0..k |-> FxSqrt(RFx(RNorm(F(k - m), F(k + m))))]])
CDirPos(k, m, e) == CxScale(CxScaleFx(CxPow(<<e[1], e[2]>>, m), FxMul(NormTab[k][m], Horner(PolFx[k][m], e[3], 1))), Parity(m))
CDir(k, m, e) == IF m >= 0 THEN CDirPos(k, m, e) ELSE CxScale(CxConj(CDirPos(k, -m, e)), Parity(-m))
\* spherical Bessel function by its series
RECURSIVE JSer(_, _, _, _, _)
JSer(k, h, n, term, acc) ==  \* h = -x^2/2
  IF term[1] = 0 \/ n > 120 THEN acc
  ELSE LET t == BMulDiv(FxMul(term, h), BOne, BInt(n * (2 * k + 2 * n + 1))) IN JSer(k, h, n + 1, t, FxAdd(acc, t))
RECURSIVE JLead(_, _)
JLead(k, x) == IF k = 0 THEN FxOne ELSE BMulDiv(FxMul(JLead(k - 1, x), x), BOne, BInt(2 * k + 1))
JBessel(k, x) == LET t == JLead(k, x) IN JSer(k, FxNeg(FxMul(FxHalf, FxMul(x, x))), 1, t, t)
\* trapezoid rule on a mesh
Trapz(y, r) == CxSum([k \in 1..(Len(r) - 1) |-> CxScaleFx(CxAdd(y[k], y[k + 1]), FxMul(FxHalf, FxSub(r[k + 1], r[k])))])
IPow(n) == CASE n % 4 = 0 -> CxOne [] n % 4 = 1 -> CxI [] n % 4 = 2 -> CxNeg(CxOne) [] OTHER -> CxNeg(CxI)
\* ---- transition amplitudes
\* <l m| n.r/r |lp mp>
DipEl(n, l, m, lp, mp) ==
  IF Abs(m - mp) > 1 THEN CxZero
  ELSE LET r2 == FxSqrt(FxHalf)
           c == CASE m = mp -> n[3]
                  [] m = mp + 1 -> CxScaleFx(CxAdd(CxNeg(n[1]), CxMul(CxI, n[2])), r2)
                  [] OTHER -> CxScaleFx(CxAdd(n[1], CxMul(CxI, n[2])), r2)
       IN  CxScaleFx(c, Ck(1, l, m, lp, mp))
\* <i| exp(iq.r) |j> from the multipoles kmin, ..: rk[k] radial integrals, e the direction of q
NixsEl(rk, e, kmin, l, m, lp, mp) ==
  CxSum([x \in 1..(l + lp + 1) |-> LET k == x - 1 IN
     IF k < kmin \/ (l + lp + k) % 2 = 1 \/ Abs(m - mp) > k THEN CxZero
     ELSE CxMul(CxScaleFx(CxScale(CxMul(IPow(k), CxConj(CDir(k, m - mp, e))), 2 * k + 1), Ck(k, l, m, lp, mp)), rk[k])])
=============================================================================

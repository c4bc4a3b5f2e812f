--------------------------------- MODULE Fx ---------------------------------
(***************************************************************************)
(* Fixed-point real numbers (20 decimals) and complex numbers on top of    *)
(* BigInt.  A real x is the big integer round(x * 10^20).  Numbers in       *)
(* traces are written in this form.  Rationals are exact.                   *)
(***************************************************************************)
EXTENDS BigInt

FxS == <<1, 0, 0, 0, 0, 0, 1>>                 \* 10^20
ASSUME FxS = BPow(BInt(10), 20)
FxZero == BZero
FxOne == FxS
FxInt(n) == BMul(BInt(n), FxS)
FxRat(p, q) == BMulDiv(BInt(IF q < 0 THEN -p ELSE p), FxS, BInt(IF q < 0 THEN -q ELSE q))
FxAdd(a, b) == BAdd(a, b)
FxSub(a, b) == BSub(a, b)
FxNeg(a) == BNeg(a)
FxMul(a, b) == BMulDiv(a, b, FxS)
FxScale(a, n) == BMul(a, BInt(n))
FxDiv(a, b) == IF b[1] < 0 THEN BMulDiv(BNeg(a), FxS, BNeg(b)) ELSE BMulDiv(a, FxS, b)
FxSqrt(a) == BSqrt(BMul(a, FxS))
FxLe(a, b) == BCmp(a, b) <= 0
FxLt(a, b) == BCmp(a, b) < 0
FxMax(a, b) == IF FxLe(a, b) THEN b ELSE a
FxMicro(n) == BMul(BInt(n), <<1, 0, 0, 0, 100>>)          \* n * 10^-6
FxNano(n) == BMul(BInt(n), <<1, 0, 0, 1000>>)             \* n * 10^-9
FxPico(n) == BMul(BInt(n), <<1, 0, 0, 1>>)                \* n * 10^-12
ASSUME BMul(BInt(1000), FxPico(1)) = FxNano(1)
ASSUME FxMicro(1000000) = FxOne /\ BMul(BInt(1000), FxNano(1000000)) = FxOne
FxIsReal(a) == a # <<>>                                   \* <<>> encodes nan/inf
\* |a - b| <= tol * max(1, |b|)
FxClose(a, b, tol) ==
  /\ FxIsReal(a)
  /\ FxLe(BAbs(BSub(a, b)), FxMul(tol, FxMax(FxOne, BAbs(b))))

CxZero == <<FxZero, FxZero>>
CxOne == <<FxOne, FxZero>>
CxI == <<FxZero, FxOne>>
CxR(a) == <<a, FxZero>>
CxInt(n) == <<FxInt(n), FxZero>>
CxAdd(a, b) == <<BAdd(a[1], b[1]), BAdd(a[2], b[2])>>
CxSub(a, b) == <<BSub(a[1], b[1]), BSub(a[2], b[2])>>
CxNeg(a) == <<BNeg(a[1]), BNeg(a[2])>>
CxConj(a) == <<a[1], BNeg(a[2])>>
CxMul(a, b) == <<BSub(FxMul(a[1], b[1]), FxMul(a[2], b[2])),
                 BAdd(FxMul(a[1], b[2]), FxMul(a[2], b[1]))>>
CxScaleFx(a, x) == <<FxMul(a[1], x), FxMul(a[2], x)>>
CxScale(a, n) == <<FxScale(a[1], n), FxScale(a[2], n)>>
CxAbs2(a) == BAdd(FxMul(a[1], a[1]), FxMul(a[2], a[2]))
CxInv(a) == LET d == CxAbs2(a) IN <<FxDiv(a[1], d), FxDiv(BNeg(a[2]), d)>>
CxDiv(a, b) == CxMul(a, CxInv(b))
CxIsReal(a) == a[1] # <<>> /\ a[2] # <<>>
CxClose(a, b, tol) ==
  /\ CxIsReal(a)
  /\ LET m == FxMul(tol, FxMax(FxOne, FxMax(BAbs(b[1]), BAbs(b[2]))))
     IN  FxLe(BAbs(BSub(a[1], b[1])), m) /\ FxLe(BAbs(BSub(a[2], b[2])), m)
CxIsZero(a) == a[1] = BZero /\ a[2] = BZero

RECURSIVE FxSumR(_, _, _)
FxSumR(s, i, acc) == IF i > Len(s) THEN acc ELSE FxSumR(s, i + 1, BAdd(acc, s[i]))
FxSum(s) == FxSumR(s, 1, BZero)
RECURSIVE CxSumR(_, _, _)
CxSumR(s, i, acc) == IF i > Len(s) THEN acc ELSE CxSumR(s, i + 1, CxAdd(acc, s[i]))
CxSum(s) == CxSumR(s, 1, CxZero)

\* exp(-x) for x >= 0: Taylor series of exp(-x/2^k), squared k times
RECURSIVE FxExpT(_, _, _, _)
FxExpT(x, n, term, acc) ==
  IF term[1] = 0 \/ n > 60 THEN acc
  ELSE LET t == BNeg(BMulDiv(FxMul(term, x), BOne, BInt(n))) IN FxExpT(x, n + 1, t, BAdd(acc, t))
RECURSIVE FxSqN(_, _)
FxSqN(y, k) == IF k = 0 THEN y ELSE FxSqN(FxMul(y, y), k - 1)
RECURSIVE FxHalvings(_, _)
FxHalvings(x, k) == IF FxLe(x, FxOne) THEN k ELSE FxHalvings(BDiv(x, BInt(2)), k + 1)
FxExpNeg(x) ==
  IF FxLt(FxInt(60), x) THEN FxZero
  ELSE LET k == FxHalvings(x, 0)
           y == BDiv(x, BPow(BInt(2), k))
       IN  FxSqN(FxExpT(y, 1, FxOne, FxOne), k)

\* exact rationals <<num, den>>, den > 0, lowest terms
RNorm(p, q) == LET s == IF q[1] < 0 THEN -1 ELSE 1
                   g == BGcd(p, q)
               IN  <<BDiv(IF s < 0 THEN BNeg(p) ELSE p, g), BDiv(BAbs(q), g)>>
RZero == <<BZero, BOne>>
ROne == <<BOne, BOne>>
RInt(n) == <<BInt(n), BOne>>
RAdd(a, b) == RNorm(BAdd(BMul(a[1], b[2]), BMul(b[1], a[2])), BMul(a[2], b[2]))
RSub(a, b) == RNorm(BSub(BMul(a[1], b[2]), BMul(b[1], a[2])), BMul(a[2], b[2]))
RMul(a, b) == RNorm(BMul(a[1], b[1]), BMul(a[2], b[2]))
RDiv(a, b) == RNorm(BMul(a[1], b[2]), BMul(a[2], b[1]))
RFx(a) == IF a[1][1] = 0 THEN BZero ELSE BMulDiv(a[1], FxS, a[2])
FxR(x) == RNorm(x, FxS)                  \* the rational a fixed-point number denotes
=============================================================================

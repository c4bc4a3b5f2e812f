------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Arbitrary-size integers for TLC (whose own integers have 32 bits).      *)
(* A big integer is the tuple <<sign, d_1, ..., d_k>> with sign in         *)
(* {-1,0,1} and base-10^4 digits, least significant first, d_k # 0; zero   *)
(* is <<0>>.  The definitions below are the meaning; BigInt.java overrides *)
(* the operators marked (J) with java.math.BigInteger for speed only, and  *)
(* BigIntTest.tla compares both on the same inputs.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

BBase == 10000

---------------------------------------------------------------------------
(* magnitudes: sequences of digits without leading (= last) zeros *)
RECURSIVE MagTrim(_)
MagTrim(m) == IF m = <<>> THEN m
              ELSE IF m[Len(m)] = 0 THEN MagTrim(SubSeq(m, 1, Len(m) - 1)) ELSE m

MagDig(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE MagCmpAt(_, _, _)
MagCmpAt(a, b, i) == IF i = 0 THEN 0
                     ELSE IF a[i] < b[i] THEN -1
                     ELSE IF a[i] > b[i] THEN 1 ELSE MagCmpAt(a, b, i - 1)
MagCmp(a, b) == IF Len(a) < Len(b) THEN -1
                ELSE IF Len(a) > Len(b) THEN 1 ELSE MagCmpAt(a, b, Len(a))

RECURSIVE MagAddC(_, _, _, _, _)
MagAddC(a, b, i, carry, acc) ==
  IF i > Len(a) /\ i > Len(b) THEN IF carry = 0 THEN acc ELSE Append(acc, carry)
  ELSE LET s == MagDig(a, i) + MagDig(b, i) + carry
       IN  MagAddC(a, b, i + 1, s \div BBase, Append(acc, s % BBase))
MagAdd(a, b) == MagAddC(a, b, 1, 0, <<>>)

RECURSIVE MagSubC(_, _, _, _, _)
MagSubC(a, b, i, borrow, acc) ==      \* requires a >= b
  IF i > Len(a) THEN MagTrim(acc)
  ELSE LET d == a[i] - MagDig(b, i) - borrow
       IN  IF d < 0 THEN MagSubC(a, b, i + 1, 1, Append(acc, d + BBase))
                    ELSE MagSubC(a, b, i + 1, 0, Append(acc, d))
MagSub(a, b) == MagSubC(a, b, 1, 0, <<>>)

RECURSIVE MagScaleC(_, _, _, _, _)
MagScaleC(a, k, i, carry, acc) ==     \* 0 <= k <= BBase
  IF i > Len(a) THEN IF carry = 0 THEN acc ELSE Append(acc, carry)
  ELSE LET s == a[i] * k + carry
       IN  MagScaleC(a, k, i + 1, s \div BBase, Append(acc, s % BBase))
MagScale(a, k) == IF k = 0 THEN <<>> ELSE MagScaleC(a, k, 1, 0, <<>>)

MagShift(a, n) == IF a = <<>> THEN a ELSE [i \in 1..n |-> 0] \o a

RECURSIVE MagMulC(_, _, _, _)
MagMulC(a, b, j, acc) ==
  IF j > Len(b) THEN acc
  ELSE MagMulC(a, b, j + 1, MagAdd(acc, MagShift(MagScale(a, b[j]), j - 1)))
MagMul(a, b) == MagMulC(a, b, 1, <<>>)

\* largest digit q in lo..hi with q*b <= r, by bisection
RECURSIVE MagQuotDigit(_, _, _, _)
MagQuotDigit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN  IF MagCmp(MagScale(b, mid), r) <= 0 THEN MagQuotDigit(r, b, mid, hi)
                                               ELSE MagQuotDigit(r, b, lo, mid - 1)

RECURSIVE MagDivC(_, _, _, _, _)
MagDivC(a, b, i, rem, quot) ==        \* digits a[i], a[i-1], ..., a[1] still to do
  IF i = 0 THEN <<MagTrim(quot), rem>>
  ELSE LET r == MagTrim(<<a[i]>> \o rem)
           q == MagQuotDigit(r, b, 0, BBase - 1)
       IN  MagDivC(a, b, i - 1, MagSub(r, MagScale(b, q)), <<q>> \o quot)
MagDivMod(a, b) == MagDivC(a, b, Len(a), <<>>, <<>>)
---------------------------------------------------------------------------
BMag(a) == Tail(a)
BMk(s, m) == IF m = <<>> THEN <<0>> ELSE <<s>> \o m
BSign(a) == a[1]
BZero == <<0>>
BOne == <<1, 1>>

RECURSIVE NatMag(_)
NatMag(n) == IF n = 0 THEN <<>> ELSE <<n % BBase>> \o NatMag(n \div BBase)
BInt(n) ==                                                            \* (J)
  IF n = 0 THEN BZero ELSE IF n > 0 THEN <<1>> \o NatMag(n) ELSE <<-1>> \o NatMag(-n)
RECURSIVE MagToNat(_, _)
MagToNat(m, i) == IF i > Len(m) THEN 0 ELSE m[i] + BBase * MagToNat(m, i + 1)
BToInt(a) == BSign(a) * MagToNat(BMag(a), 1)                           \* (J)

BNeg(a) == [a EXCEPT ![1] = -@]                                        \* (J)
BAbs(a) == IF a[1] < 0 THEN BNeg(a) ELSE a                             \* (J)
BCmp(a, b) ==                                                          \* (J)
  IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
  ELSE a[1] * MagCmp(BMag(a), BMag(b))
BAdd(a, b) ==                                                          \* (J)
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN BMk(a[1], MagAdd(BMag(a), BMag(b)))
  ELSE LET c == MagCmp(BMag(a), BMag(b))
       IN  IF c = 0 THEN BZero
           ELSE IF c > 0 THEN BMk(a[1], MagSub(BMag(a), BMag(b)))
           ELSE BMk(b[1], MagSub(BMag(b), BMag(a)))
BSub(a, b) == BAdd(a, BNeg(b))                                         \* (J)
BMul(a, b) == BMk(a[1] * b[1], MagMul(BMag(a), BMag(b)))               \* (J)
\* quotient truncated towards zero
BDiv(a, b) == BMk(a[1] * b[1], MagDivMod(BMag(a), BMag(b))[1])         \* (J)
BMod(a, b) == BMk(a[1], MagDivMod(BMag(a), BMag(b))[2])                \* (J)
\* a*b/c rounded half away from zero (c > 0)
BMulDiv(a, b, c) ==                                                    \* (J)
  LET p == BMul(a, b) IN
  BMk(p[1], MagDivMod(BMag(BAdd(BMul(BInt(2), BAbs(p)), c)), BMag(BMul(BInt(2), c)))[1])
RECURSIVE BGcdR(_, _)
BGcdR(a, b) == IF b[1] = 0 THEN a ELSE BGcdR(b, BMod(a, b))
BGcd(a, b) == BGcdR(BAbs(a), BAbs(b))                                  \* (J)
\* floor of the square root, Newton from above
RECURSIVE BSqrtN(_, _)
BSqrtN(n, x) == LET y == BDiv(BAdd(x, BDiv(n, x)), BInt(2))
                IN  IF BCmp(y, x) >= 0 THEN x ELSE BSqrtN(n, y)
BSqrt(n) == IF n[1] = 0 THEN BZero                                     \* (J)
            ELSE BSqrtN(n, BMk(1, MagShift(<<1>>, (Len(n) + 1) \div 2 + 1)))
RECURSIVE BPow(_, _)
BPow(a, n) == IF n = 0 THEN BOne ELSE BMul(a, BPow(a, n - 1))          \* (J)
=============================================================================

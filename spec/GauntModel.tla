------------------------------ MODULE GauntModel ----------------------------
(***************************************************************************)
(* The coefficients from 3j symbols are the integrals of three spherical   *)
(* harmonics: exact comparison with polynomial integrals.                  *)
(***************************************************************************)
EXTENDS Harmonics
CONSTANTS L
VARIABLES q, ok
RECURSIVE OneMinus(_)
OneMinus(n) == IF n = 0 THEN <<ROne>> ELSE PMul(<<ROne, RZero, RInt(-1)>>, OneMinus(n - 1))
RECURSIVE Integ(_, _)
Integ(a, k) == IF k > Len(a) THEN RZero
               ELSE RAdd(IF k % 2 = 1 THEN RMul(a[k], RNorm(BInt(2), BInt(k))) ELSE RZero, Integ(a, k + 1))
\* normalisation of Y_lm squared, times 4 pi
N2(l, m) == RMul(RInt(2 * l + 1), RNorm(F(l - Abs(m)), F(l + Abs(m))))
\* Condon-Shortley phase
Ph(m) == IF m > 0 THEN Parity(m) ELSE 1
\* square and sign of sqrt(4 pi/(2k+1)) Int Y*_lm Y_kq Y_l'm', q = m - m'
Direct(k, l, m, lp, mp) ==
  LET n == m - mp
      e == (Abs(m) + Abs(n) + Abs(mp)) \div 2
      int == Integ(PMul(PMul(Pol(l, m), Pol(k, n)), PMul(Pol(lp, mp), OneMinus(e))), 1)
      n2 == RMul(RMul(N2(l, m), N2(k, n)), RMul(N2(lp, mp), RNorm(BOne, BInt(2 * k + 1))))
      \* (1/(4 pi)^(3/2)) sqrt(4 pi) 2 pi = 1/2
      sq == RMul(RMul(n2, RMul(int, int)), RNorm(BOne, BInt(4)))
      s == IF int[1] = BZero THEN 0 ELSE int[1][1] * Ph(m) * Ph(n) * Ph(mp)
  IN  <<s, sq>>
Init == /\ q \in {c \in [k : 0..(2 * L), l : 0..L, m : (-L)..L, lp : 0..L, mp : (-L)..L] :
                    Abs(c.m) <= c.l /\ Abs(c.mp) <= c.lp /\ c.k <= c.l + c.lp}
        /\ ok = "todo"
Want(c) == IF Abs(c.m - c.mp) > c.k THEN <<0, RZero>> ELSE LET d == Direct(c.k, c.l, c.m, c.lp, c.mp) IN IF d[1] = 0 THEN <<0, RZero>> ELSE d
Next == ok = "todo" /\ q' = q /\ ok' = (IF CkExact(q.k, q.l, q.m, q.lp, q.mp) = Want(q) THEN "ok" ELSE "wrong")
Right == ok # "wrong"
=============================================================================

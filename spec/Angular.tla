------------------------------- MODULE Angular ------------------------------
(***************************************************************************)
(* Angular momentum: Wigner 3j symbols and the coefficients                 *)
(*   C(k; l m, l' m') = sqrt(4 pi/(2k+1)) Int Y*_lm Y_k,m-m' Y_l'm'         *)
(* from exact rationals (sign and square), shells of spin-orbitals, ladder  *)
(* operators, spin-orbit coupling, field, and the Slater-Condon matrix      *)
(* elements of two electrons.                                              *)
(***************************************************************************)
EXTENDS Fock
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE BFact(_)
BFact(n) == IF n <= 1 THEN BOne ELSE BMul(BInt(n), BFact(n - 1))
FactTab == TLCEval([n \in 0..40 |-> BFact(n)])
F(n) == FactTab[n]
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Triangle(a, b, c) == Abs(a - b) <= c /\ c <= a + b
RECURSIVE W3Sum(_, _, _, _, _, _, _, _)
W3Sum(j1, j2, j3, m1, m2, t, t2, acc) ==
  IF t > t2 THEN acc
  ELSE LET den == BMul(BMul(BMul(F(t), F(j3 - j2 + t + m1)), BMul(F(j3 - j1 + t - m2), F(j1 + j2 - j3 - t))), BMul(F(j1 - t - m1), F(j2 - t + m2)))
       IN  W3Sum(j1, j2, j3, m1, m2, t + 1, t2, RAdd(acc, <<BInt(Parity(t)), den>>))
\* <<sign, square>> of a 3j symbol
W3(j1, j2, j3, m1, m2, m3) ==
  IF m1 + m2 + m3 # 0 \/ ~Triangle(j1, j2, j3) \/ Abs(m1) > j1 \/ Abs(m2) > j2 \/ Abs(m3) > j3 THEN <<0, RZero>>
  ELSE LET lo == Max2(0, Max2(j2 - j3 - m1, j1 - j3 + m2))
           hi == Min2(j1 + j2 - j3, Min2(j1 - m1, j2 + m2))
           s == W3Sum(j1, j2, j3, m1, m2, lo, hi, RZero)
           tri == RNorm(BMul(BMul(F(j1 + j2 - j3), F(j1 - j2 + j3)), F(j2 + j3 - j1)), F(j1 + j2 + j3 + 1))
           pr == BMul(BMul(BMul(F(j1 + m1), F(j1 - m1)), BMul(F(j2 + m2), F(j2 - m2))), BMul(F(j3 + m3), F(j3 - m3)))
           sq == RMul(RMul(s, s), RMul(tri, <<pr, BOne>>))
       IN  IF s[1] = BZero THEN <<0, RZero>> ELSE <<s[1][1] * Parity(Abs(j1 - j2 - m3)), sq>>
\* <<sign, square>> of C(k; l m, lp mp)
CkExact(k, l, m, lp, mp) ==
  LET a == W3(l, k, lp, 0, 0, 0) b == W3(l, k, lp, -m, m - mp, mp)
  IN  IF a[1] = 0 \/ b[1] = 0 THEN <<0, RZero>>
      ELSE <<a[1] * b[1] * Parity(Abs(m)), RMul(<<BInt((2 * l + 1) * (2 * lp + 1)), BOne>>, RMul(a[2], b[2]))>>
FxSigned(c) == IF c[1] = 0 THEN FxZero ELSE LET v == FxSqrt(RFx(c[2])) IN IF c[1] = 1 THEN v ELSE FxNeg(v)
LMax == 3
CkTab == TLCEval([k \in 0..(2 * LMax) |-> [l \in 0..LMax |-> [m \in (-l)..l |-> [lp \in 0..LMax |-> [mp \in (-lp)..lp |->
            FxSigned(CkExact(k, l, m, lp, mp))]]]]])
Ck(k, l, m, lp, mp) == CkTab[k][l][m][lp][mp]

\* ---- labelled orbitals <<l, s, m>>; shells: sequence of angular momenta, numbered as in the package
RECURSIVE Offset(_, _, _)
Offset(shells, l, k) == IF shells[k] = l THEN 0 ELSE 2 * (2 * shells[k] + 1) + Offset(shells, l, k + 1)
Ix(shells, o) == Offset(shells, o[1], 1) + o[2] * (2 * o[1] + 1) + o[3] + o[1]
Orbs(shells) == UNION {{<<l, s, m>> : s \in {0, 1}, m \in (-l)..l} : l \in SetOf(shells)}
OrbTab(shells) == TLCEval([i \in {Ix(shells, o) : o \in Orbs(shells)} |-> CHOOSE o \in Orbs(shells) : Ix(shells, o) = i])

FxHalf == FxRat(1, 2)
LadderUp(l, m) == FxSqrt(FxInt((l - m) * (l + m + 1)))       \* <m+1|L+|m>
LadderDn(l, m) == FxSqrt(FxInt((l + m) * (l - m + 1)))       \* <m-1|L-|m>
RECURSIVE SeqOf(_, _)
SeqOf(S, acc) == IF S = {} THEN acc ELSE LET x == CHOOSE y \in S : TRUE IN SeqOf(S \ {x}, Append(acc, x))
Term1(shells, to, from, v) == [t |-> << <<Ix(shells, to), "c">>, <<Ix(shells, from), "a">> >>, v |-> v]
OneBody(shells, f(_), S) == [k \in 1..Len(S) |-> f(S[k])]
\* one-body operators of the shells in Ls
Lz(shells, Ls) == SeqOf({Term1(shells, o, o, CxInt(o[3])) : o \in {x \in Orbs(shells) : x[1] \in Ls}}, <<>>)
Sz(shells, Ls) == SeqOf({Term1(shells, o, o, CxR(IF o[2] = 1 THEN FxHalf ELSE FxNeg(FxHalf))) : o \in {x \in Orbs(shells) : x[1] \in Ls}}, <<>>)
Lp(shells, Ls) == SeqOf({Term1(shells, <<o[1], o[2], o[3] + 1>>, o, CxR(LadderUp(o[1], o[3]))) : o \in {x \in Orbs(shells) : x[1] \in Ls /\ x[3] < x[1]}}, <<>>)
Lm(shells, Ls) == SeqOf({Term1(shells, <<o[1], o[2], o[3] - 1>>, o, CxR(LadderDn(o[1], o[3]))) : o \in {x \in Orbs(shells) : x[1] \in Ls /\ x[3] > -x[1]}}, <<>>)
Sp(shells, Ls) == SeqOf({Term1(shells, <<o[1], 1, o[3]>>, o, CxOne) : o \in {x \in Orbs(shells) : x[1] \in Ls /\ x[2] = 0}}, <<>>)
Sm(shells, Ls) == SeqOf({Term1(shells, <<o[1], 0, o[3]>>, o, CxOne) : o \in {x \in Orbs(shells) : x[1] \in Ls /\ x[2] = 1}}, <<>>)
\* single-particle action of xi L.S on one orbital = xi (lz sz + (l+ s- + l- s+)/2)
SOCOn(xi, o) ==
  LET l == o[1] s == o[2] m == o[3]
      diag == FxMul(xi, FxMul(FxInt(m), IF s = 1 THEN FxHalf ELSE FxNeg(FxHalf)))
      d == (o :> CxR(diag))
  IN  IF s = 1 /\ m < l THEN d @@ (<<l, 0, m + 1>> :> CxR(FxMul(FxMul(xi, FxHalf), LadderUp(l, m))))
      ELSE IF s = 0 /\ m > -l THEN d @@ (<<l, 1, m - 1>> :> CxR(FxMul(FxMul(xi, FxHalf), LadderDn(l, m))))
      ELSE d
\* h.S on one orbital: sx = (s+ + s-)/2, sy = (s+ - s-)/(2i)
FieldOn(h, o) ==
  LET z == FxMul(h[3], FxHalf)
      flip == <<o[1], 1 - o[2], o[3]>>
      x == FxMul(h[1], FxHalf)  y == FxMul(h[2], FxHalf)
  IN  (o :> CxR(IF o[2] = 1 THEN z ELSE FxNeg(z))) @@ (flip :> (IF o[2] = 0 THEN <<x, FxNeg(y)>> ELSE <<x, y>>))

\* ---- Slater-Condon: u(1,2,3,4) = Sum_k R^k C(k; 1, 4) C(k; 3, 2); spin of 1 = spin of 4, of 2 = of 3
\* block: [l |-> <<l1, l2, l3, l4>>, R |-> <<R^0, R^1, ...>>]
U4(b, o1, o2, o3, o4) ==
  IF <<o1[1], o2[1], o3[1], o4[1]>> # b.l \/ o1[2] # o4[2] \/ o2[2] # o3[2] \/ o1[3] + o2[3] # o3[3] + o4[3] THEN FxZero
  ELSE FxSum([k \in 1..Len(b.R) |-> IF k - 1 > 2 * LMax THEN FxZero ELSE
         LET x == Ck(k - 1, o1[1], o1[3], o4[1], o4[3]) y == Ck(k - 1, o3[1], o3[3], o2[1], o2[3])
         IN  IF x = FxZero \/ y = FxZero THEN FxZero ELSE FxMul(b.R[k], FxMul(x, y))])
\* amplitude of |{c<d}> in 1/2 Sum u c1+ c2+ c3 c4 acting on |{a<b}>
UPair1(bl, c, d, a, b) == FxMul(FxHalf, FxAdd(FxSub(U4(bl, c, d, b, a), U4(bl, c, d, a, b)), FxSub(U4(bl, d, c, a, b), U4(bl, d, c, b, a))))
UPair(blocks, c, d, a, b) == FxSum([k \in 1..Len(blocks) |-> UPair1(blocks[k], c, d, a, b)])
\* the Coulomb operator on a two-electron product state {i, j}
UOn(blocks, shells, tab, pairs, s) ==
  LET i == CHOOSE x \in s : \A y \in s : x <= y
      j == CHOOSE x \in s : \A y \in s : x >= y
      a == tab[i] b == tab[j]
      cand == {p \in pairs : LET c == tab[p[1]] d == tab[p[2]] IN c[3] + d[3] = a[3] + b[3] /\ c[2] + d[2] = a[2] + b[2]}
  IN  TLCEval([q \in {{p[1], p[2]} : p \in cand} |->
        LET x == CHOOSE u \in q : \A y \in q : u <= y z == CHOOSE u \in q : \A y \in q : u >= y
        IN  CxR(UPair(blocks, tab[x], tab[z], a, b))])
Pairs(tab) == {p \in (DOMAIN tab) \X (DOMAIN tab) : p[1] < p[2]}
ScaleFx(psi, x) == [s \in DOMAIN psi |-> CxScaleFx(psi[s], x)]
RECURSIVE SumStates(_, _, _)
SumStates(f, S, acc) == IF S = {} THEN acc ELSE LET s == CHOOSE x \in S : TRUE IN SumStates(f, S \ {s}, AddStates(acc, f[s], CxOne))
\* linear extension of an action given on product states
LinOn(g(_), psi) == SumStates([s \in DOMAIN psi |-> ScaleState(g(s), psi[s])], DOMAIN psi, Empty)
\* the operator blocks of a p shell and a d shell
Block(l1, l2, l3, l4, R) == [l |-> <<l1, l2, l3, l4>>, R |-> R]
PDBlocks(Fdd, Fpp, Fpd, Gpd) == << Block(2, 2, 2, 2, Fdd), Block(1, 1, 1, 1, Fpp), Block(1, 2, 2, 1, Fpd), Block(2, 1, 1, 2, Fpd),
                                   Block(1, 2, 1, 2, Gpd), Block(2, 1, 2, 1, Gpd) >>
=============================================================================

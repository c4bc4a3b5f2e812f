------------------------------ MODULE C18Trace ------------------------------
EXTENDS Cubic, TraceData
VARIABLES i, verdict
Tol == FxNano(1)
Cx(a) == <<a[1], a[2]>>
Lab(o) == <<o[1], o[2], o[3]>>
Close(got, want) == FxClose(got, want, Tol)
\* recorded elements [[labels..], [labels..], re, im]; no pair twice
Keys(d) == {<<Lab(d[k].a), Lab(d[k].b)>> : k \in 1..Len(d)}
At(d, a, b) == LET S == {k \in 1..Len(d) : Lab(d[k].a) = a /\ Lab(d[k].b) = b} IN IF S = {} THEN CxZero ELSE LET k == CHOOSE x \in S : TRUE IN <<d[k].re, d[k].im>>
ShellOrbs(l) == {<<l, s, m>> : s \in {0, 1}, m \in (-l)..l}
DensRight(shells, d, l, psi) ==
  /\ Keys(d) \subseteq (ShellOrbs(l) \X ShellOrbs(l))
  /\ \A a \in ShellOrbs(l) : \A b \in ShellOrbs(l) : CxClose(At(d, a, b), DensEl(psi, Ix(shells, a), Ix(shells, b)), Tol)
\* column c of the recorded matrix as a function of m
Col(u, l, c) == [m \in (-l)..l |-> Cx(u[m + l + 1][c])]
UOverlap(u, l, c, e) == LET x == Col(u, l, c) y == Col(u, l, e) IN CxSum([k \in 1..(2 * l + 1) |-> CxMul(CxConj(x[k - 1 - l]), y[k - 1 - l])])
Unitary(u, l) == \A c \in 1..(2 * l + 1) : \A e \in 1..(2 * l + 1) : CxClose(UOverlap(u, l, c, e), IF c = e THEN CxOne ELSE CxZero, Tol)
HarmRight(u, l) == \A c \in 1..(2 * l + 1) : FxClose(CxAbs2(Over(CubicList(l)[c], Col(u, l, c))), FxOne, Tol)
Shape(u, n) == Len(u) = n /\ \A r \in 1..n : Len(u[r]) = n
TransRight(r) ==
  LET n == 2 * r.l + 1 u == r.u
      Blk(a, b) == [x \in 1..n |-> [y \in 1..n |-> u[a * n + x][b * n + y]]]
      Zero(m) == \A x \in 1..n : \A y \in 1..n : CxClose(Cx(m[x][y]), CxZero, Tol)
  IN  IF r.spinpol
      THEN Clauses(<< <<"shape", Shape(u, 2 * n)>>, <<"spin-mixing", Zero(Blk(0, 1)) /\ Zero(Blk(1, 0))>>,
                      <<"not-unitary", Unitary(Blk(0, 0), r.l) /\ Unitary(Blk(1, 1), r.l)>>,
                      <<"not-the-cubic-harmonics", HarmRight(Blk(0, 0), r.l) /\ HarmRight(Blk(1, 1), r.l)>> >>)
      ELSE Clauses(<< <<"shape", Shape(u, n)>>, <<"not-unitary", Unitary(u, r.l)>>, <<"not-the-cubic-harmonics", HarmRight(u, r.l)>> >>)
CubEl(r, psi, si, c, sj, e) == \* n_ic,jc = Sum u*[m,i] n[m,k] u[k,j]
  LET f == Col(r.u, 2, c) g == Col(r.u, 2, e)
      D == [m \in (-2)..2 |-> [k \in (-2)..2 |-> IF f[m] = CxZero \/ g[k] = CxZero THEN CxZero
               ELSE CxMul(CxMul(CxConj(f[m]), DensEl(psi, Ix(r.shells, <<2, si, m>>), Ix(r.shells, <<2, sj, k>>))), g[k])]]
  IN  CxSum([q \in 1..25 |-> D[((q - 1) \div 5) - 2][((q - 1) % 5) - 2]])
CubAt(r, si, c, sj, e) == LET S == {k \in 1..Len(r.cubic) : r.cubic[k].k = <<si, c, sj, e>>}
                          IN  IF S = {} THEN CxZero ELSE LET k == CHOOSE x \in S : TRUE IN <<r.cubic[k].re, r.cubic[k].im>>
CubRight(r, psi) ==
  /\ \A k \in 1..Len(r.cubic) : LET q == r.cubic[k].k IN q[1] \in {0, 1} /\ q[3] \in {0, 1} /\ q[2] \in 0..4 /\ q[4] \in 0..4
  /\ \A si \in {0, 1} : \A sj \in {0, 1} : \A c \in 1..5 : \A e \in 1..5 :
       CxClose(CubAt(r, si, c - 1, sj, e - 1), CubEl(r, psi, si, c, sj, e), Tol)
Occ(shells, psi) == << CubOcc(shells, EgOf, 0, psi), CubOcc(shells, EgOf, 1, psi), CubOcc(shells, (1..5) \ EgOf, 0, psi), CubOcc(shells, (1..5) \ EgOf, 1, psi) >>
Obs(r) ==
  LET psi == TLCEval(DecState(r.psi)) sh == r.shells D == {2} IN
  Clauses(<<
    <<"Lz", Close(r.lz, Expect(Lz(sh, D), psi)[1])>>, <<"Sz", Close(r.sz, Expect(Sz(sh, D), psi)[1])>>,
    <<"L2", Close(r.l2, LSqr(sh, psi))>>, <<"S2", Close(r.s2, SSqr(sh, psi))>>,
    <<"occupation", \A k \in 1..Len(sh) : Close(r.n[k], Expect(CountOp(sh, sh[k]), psi)[1])>>,
    <<"occupation-default-shell", Close(r.nd, Expect(CountOp(sh, 2), psi)[1])>>,
    <<"density-matrix", \A k \in 1..Len(sh) : DensRight(sh, r.dens[k], sh[k], psi)>>,
    <<"cubic-density-matrix", CubRight(r, psi)>>,
    <<"eg-t2g-occupation", Len(r.occ) = 4 /\ LET w == Occ(sh, psi) IN \A k \in 1..4 : CxClose(Cx(r.occ[k]), w[k], Tol)>>,
    <<"state-modified", r.kept>> >>)
Ladder(r) ==
  LET psi == TLCEval(DecState(r.psi)) sh == r.shells D == {2}
      ok(name, op) == <<name, StateClose(DecState(r[name]), ApplyOp(op, psi), Tol)>>
  IN  Clauses(<< ok("sz", Sz(sh, D)), ok("lz", Lz(sh, D)), ok("sp", Sp(sh, D)), ok("sm", Sm(sh, D)), ok("lp", Lp(sh, D)), ok("lm", Lm(sh, D)), <<"state-modified", r.kept>> >>)
\* printed table: rounded numbers
Near(got, want, digits) == \* |got - want| <= 0.5 10^-digits (and a little more)
  FxIsReal(got) /\ FxLe(BAbs(FxSub(got, want)), FxRat(51, IF digits = 2 THEN 10000 ELSE 100000))
PrintedRow(r, k) ==
  LET psi == TLCEval(DecState(r.psis[k])) sh == r.shells D == {2} w == r.rows[k] IN
  /\ Len(w) = 11
  /\ w[1] = FxInt(k - 1) /\ Near(w[2], FxSub(r.es[k], r.es[1]), 3) /\ Near(w[3], Expect(CountOp(sh, 2), psi)[1], 2)
  /\ LET o == Occ(sh, psi) IN \A q \in 1..4 : Near(w[3 + q], o[q][1], 3)
  /\ Near(w[8], Expect(Lz(sh, D), psi)[1], 2) /\ Near(w[9], Expect(Sz(sh, D), psi)[1], 2)
  /\ Near(w[10], LSqr(sh, psi), 2) /\ Near(w[11], SSqr(sh, psi), 2)
J(r) == CASE r.kind = "obs" -> Obs(r)
          [] r.kind = "ladder" -> Ladder(r)
          [] r.kind = "u" -> TransRight(r)
          [] r.kind = "print" -> Clauses(<< <<"printed-states", Len(r.rows) = r.want>>, <<"printed-value", \A k \in 1..Len(r.rows) : PrintedRow(r, k)>> >>)
          [] OTHER -> "unknown-record"
INSTANCE TraceBase WITH Judge <- J
=============================================================================

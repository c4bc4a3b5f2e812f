------------------------------ MODULE C19Trace ------------------------------
EXTENDS Harmonics, TraceData
VARIABLES i, verdict
Tol == FxNano(1)
\* one-body operator: action on every single electron; want(a, b): amplitude of a in op|b>
Body(op) == \A k \in 1..Len(op) : Len(op[k].t) = 2 /\ op[k].t[1][2] # op[k].t[2][2]
Vac(op) == \A k \in 1..Len(op) : LET v == ApplyTerm(op[k].t, {}) IN v[1] = 0
Img(op, x) == ApplyOp(op, ({x} :> CxOne))
PosIn(shells, x, n) == \E o \in Orbs(shells) : Ix(shells, o) = x
WantOn(shells, lto, lfrom, el(_, _, _, _), x) ==
  LET S == {o \in Orbs(shells) : Ix(shells, o) = x}
  IN  IF S = {} THEN Empty
      ELSE LET o == CHOOSE y \in S : TRUE
           IN  IF o[1] # lfrom THEN Empty
               ELSE TLCEval([t \in {{Ix(shells, <<lto, o[2], m>>)} : m \in (-lto)..lto} |->
                      LET m == CHOOSE mm \in (-lto)..lto : {Ix(shells, <<lto, o[2], mm>>)} = t IN el(lto, m, lfrom, o[3])])
Polar(p) == <<<<p[1][1], p[1][2]>>, <<p[2][1], p[2][2]>>, <<p[3][1], p[3][2]>>>>
\* conj of <t|op|x> = <x|dagger|t>
AdjointOf(op, dag, n) == Body(dag) /\ Vac(dag) /\
   \A x \in 0..(n - 1) : \A y \in 0..(n - 1) : CxClose(Amp(Img(dag, x), {y}), CxConj(Amp(Img(op, y), {x})), Tol)
Dip(r) ==
  LET sh == r.shells
      ops == [k \in 1..Len(r.ops) |-> TLCEval(DecOp(r.ops[k]))]
      dag == [k \in 1..Len(r.dag) |-> TLCEval(DecOp(r.dag[k]))]
      scale(p) == FxAdd(FxOne, FxSum([c \in 1..3 |-> FxAdd(BAbs(p[c][1]), BAbs(p[c][2]))]))
  IN  IF Len(ops) # Len(r.pols) \/ Len(dag) # Len(r.pols) THEN "number-of-operators"
      ELSE Clauses(<<
        <<"not-a-one-body-operator", \A k \in 1..Len(ops) : Body(ops[k]) /\ Vac(ops[k])>>,
        <<"dipole-element", \A k \in 1..Len(ops) : LET p == Polar(r.pols[k]) IN
             \A x \in 0..(r.n - 1) : StateClose(Img(ops[k], x), WantOn(sh, r.lto, r.lfrom, LAMBDA l, m, lp, mp : DipEl(p, l, m, lp, mp), x), FxMul(Tol, scale(p)))>>,
        <<"emission-not-adjoint", \A k \in 1..Len(ops) : AdjointOf(ops[k], dag[k], r.n)>> >>)
\* ---- momentum transfer
QNorm(q) == FxSqrt(FxAdd(FxMul(q[1], q[1]), FxAdd(FxMul(q[2], q[2]), FxMul(q[3], q[3]))))
Rad(c, qn, k) == Trapz([x \in 1..Len(c.r) |-> CxScaleFx(CxMul(CxConj(<<c.ri[x][1], c.ri[x][2]>>), <<c.rj[x][1], c.rj[x][2]>>),
                        FxMul(JBessel(k, FxMul(qn, c.r[x])), FxMul(c.r[x], c.r[x])))], c.r)
\* all wanted images of one call: sequence over qs of [orbital -> state]
Wants(c, sh, n) ==
  [k \in 1..Len(c.qs) |->
    LET qn == QNorm(c.qs[k])
        e == TLCEval(<<FxDiv(c.qs[k][1], qn), FxDiv(c.qs[k][2], qn), FxDiv(c.qs[k][3], qn)>>)
        rk == TLCEval([kk \in 0..(c.li + c.lj) |-> IF kk < c.kmin \/ (c.li + c.lj + kk) % 2 = 1 THEN CxZero ELSE Rad(c, qn, kk)])
    IN  TLCEval([x \in 0..(n - 1) |-> WantOn(sh, c.li, c.lj, LAMBDA l, m, lp, mp : NixsEl(rk, e, c.kmin, l, m, lp, mp), x)])]
Nixs(r) ==
  IF \E k \in 1..Len(r.calls) : Len(r.calls[k].ops) # Len(r.calls[k].qs) THEN "number-of-operators"
  ELSE
  LET n == r.n
      W == TLCEval([k \in 1..Len(r.calls) |-> TLCEval(Wants(r.calls[k], r.shells, n))])
      O == TLCEval([k \in 1..Len(r.calls) |-> TLCEval([q \in 1..Len(r.calls[k].ops) |-> DecOp(r.calls[k].ops[q])])])
      G == TLCEval([k \in 1..Len(r.calls) |-> TLCEval([q \in 1..Len(O[k]) |-> TLCEval([x \in 0..(n - 1) |-> Img(O[k][q], x)])])])
      sum(f(_, _)) == CxSum([k \in 1..Len(W) |-> CxSum([q \in 1..Len(W[k]) |-> CxSum([x \in 1..n |-> f(W[k][q][x - 1], G[k][q][x - 1])])])])
      ww == sum(LAMBDA w, g : Inner(w, w))[1]
      wg == sum(LAMBDA w, g : Inner(w, g))
      lam == IF ww = FxZero THEN FxOne ELSE FxDiv(wg[1], ww)
      big == FxSqrt(ww)
      tol == IF r.loose THEN FxMul(FxRat(1, 50), FxMul(BAbs(lam), big)) ELSE FxPico(1000)
  IN  Clauses(<<
        <<"not-a-one-body-operator", \A k \in 1..Len(O) : \A q \in 1..Len(O[k]) : Body(O[k][q]) /\ Vac(O[k][q])>>,
        <<"not-proportional", FxLt(FxNano(10), ww) => (FxLt(FxMicro(1), lam) /\ FxLe(BAbs(wg[2]), FxMul(FxMicro(1), FxAdd(FxOne, wg[1]))))>>,
        <<"plane-wave-element", \A k \in 1..Len(W) : \A q \in 1..Len(W[k]) : \A x \in 0..(n - 1) :
              StateClose(G[k][q][x], ScaleState(W[k][q][x], CxR(lam)), tol)>> >>)
Photo(r) ==
  LET num == 2 * (2 * r.l + 1)
      right(ops, act) == Len(ops) = num /\ \A s \in {0, 1} : \A m \in (-r.l)..r.l :
         LET o == ops[s * (2 * r.l + 1) + m + r.l + 1]
         IN  Len(o) = 1 /\ Len(o[1].t) = 1 /\ o[1].t[1] = <<Ix(r.shells, <<r.l, s, m>>), act>> /\ CxClose(<<o[1].re, o[1].im>>, CxOne, Tol)
  IN  Clauses(<< <<"photoemission", right(r.ps, "a")>>, <<"inverse-photoemission", right(r.ips, "c")>> >>)
J(r) == CASE r.kind = "dip" -> Dip(r) [] r.kind = "nixs" -> Nixs(r) [] r.kind = "photo" -> Photo(r) [] OTHER -> "unknown-record"
INSTANCE TraceBase WITH Judge <- J
=============================================================================

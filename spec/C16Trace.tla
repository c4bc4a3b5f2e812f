------------------------------ MODULE C16Trace ------------------------------
EXTENDS Angular, TraceData
VARIABLES i, verdict
Tol == FxNano(1)
Lab(o) == <<o[1], o[2], o[3]>>
\* recorded operators carry labels <<l, s, m>>
DecL(shells, js) == TLCEval([k \in 1..Len(js) |-> [t |-> [q \in 1..Len(js[k].t) |-> <<Ix(shells, Lab(js[k].t[q][1])), js[k].t[q][2]>>],
                                                   v |-> <<js[k].re, js[k].im>>]])
Known(shells, js) == \A k \in 1..Len(js) : \A q \in 1..Len(js[k].t) : Lab(js[k].t[q][1]) \in Orbs(shells)
\* at most n creators and as many annihilators
Body(op, n) == \A k \in 1..Len(op) : LET c == Cardinality({q \in 1..Len(op[k].t) : op[k].t[q][2] = "c"})
                                     IN  Len(op[k].t) = 2 * c /\ c <= n
Vanishes(op, s, tol) == StateClose(ApplyOp(op, (s :> CxOne)), Empty, tol)
Blocks(r) == [k \in 1..Len(r.blocks) |-> [l |-> <<r.blocks[k].l[1], r.blocks[k].l[2], r.blocks[k].l[3], r.blocks[k].l[4]>>, R |-> r.blocks[k].R]]
Uop(r) ==
  LET shells == r.shells
      tab == OrbTab(shells)
      prs == TLCEval(Pairs(tab))
      bl == TLCEval(Blocks(r))
      scale == FxAdd(FxOne, FxSum([k \in 1..Len(bl) |-> FxSum([q \in 1..Len(bl[k].R) |-> BAbs(bl[k].R[q])])]))
      tol == FxMul(Tol, scale)
  IN IF ~Known(shells, r.op) THEN "unknown-orbital"
     ELSE LET op == DecL(shells, r.op) IN
     Clauses(<<
       <<"not-a-two-body-operator", Body(op, 2) /\ Vanishes(op, {}, tol) /\ \A o \in DOMAIN tab : Vanishes(op, {o}, tol)>>,
       <<"not-slater-condon", \A p \in prs : StateClose(ApplyOp(op, ({p[1], p[2]} :> CxOne)), UOn(bl, shells, tab, prs, {p[1], p[2]}), tol)>> >>)
\* state of one electron: orbital label -> index
OneEl(shells, f) == [s \in {{Ix(shells, o)} : o \in DOMAIN f} |-> f[CHOOSE o \in DOMAIN f : {Ix(shells, o)} = s]]
OneBodyIs(shells, op, want(_), tol) ==
  Body(op, 1) /\ Vanishes(op, {}, tol) /\ \A o \in Orbs(shells) : StateClose(ApplyOp(op, ({Ix(shells, o)} :> CxOne)), OneEl(shells, want(o)), tol)
\* the operator without spin: exactly the elements of the expansion, halved, over (l, m) labels
NoSpin(r) ==
  LET b == TLCEval([l |-> <<r.l[1], r.l[2], r.l[3], r.l[4]>>, R |-> r.R])
      o(x) == <<x[1], 0, x[2]>>
      want == TLCEval([m \in {z \in ((-b.l[1])..b.l[1]) \X ((-b.l[2])..b.l[2]) \X ((-b.l[3])..b.l[3]) \X ((-b.l[4])..b.l[4]) : z[1] + z[2] = z[3] + z[4]} |->
                 FxMul(FxHalf, U4(b, <<b.l[1], 0, m[1]>>, <<b.l[2], 0, m[2]>>, <<b.l[3], 0, m[3]>>, <<b.l[4], 0, m[4]>>))])
      tol == FxMul(Tol, FxAdd(FxOne, FxSum([q \in 1..Len(b.R) |-> BAbs(b.R[q])])))
      ms(k) == [q \in 1..4 |-> r.op[k][1][q][2]]
      listed == {ms(k) : k \in 1..Len(r.op)}
  IN  Clauses(<<
        <<"unknown-orbital", \A k \in 1..Len(r.op) : Len(r.op[k][1]) = 4 /\ \A q \in 1..4 : r.op[k][1][q][1] = b.l[q]>>,
        <<"element-twice", Cardinality(listed) = Len(r.op)>>,
        <<"coulomb-element", \A k \in 1..Len(r.op) : FxClose(r.op[k][2], IF ms(k) \in DOMAIN want THEN want[ms(k)] ELSE FxZero, tol)>>,
        <<"element-missing", \A m \in DOMAIN want : FxClose(want[m], FxZero, tol) \/ m \in listed>> >>)
J(r) ==
  CASE r.kind = "gaunt" -> Clauses(<< <<"gaunt-coefficient", FxClose(r.v, IF Abs(r.m - r.mp) > r.k \/ r.k > r.l + r.lp THEN FxZero ELSE Ck(r.k, r.l, r.m, r.lp, r.mp), Tol)>> >>)
    [] r.kind = "getU" -> LET o(x) == <<x[1], 0, x[2]>>
                              b == [l |-> <<r.o[1][1], r.o[2][1], r.o[3][1], r.o[4][1]>>, R |-> r.R]
                          IN  Clauses(<< <<"coulomb-element", FxClose(r.v, U4(b, o(r.o[1]), o(r.o[2]), o(r.o[3]), o(r.o[4])), FxMicro(1))>> >>)
    [] r.kind = "nospin" -> NoSpin(r)
    [] r.kind = "table" -> \* the printed table, to its two decimals
         Clauses(<< <<"printed-ranks", r.ks = [k \in 1..(r.l + r.lp + 1) |-> k - 1] /\ Len(r.rows) = Len(r.ks)>>,
                    <<"printed-coefficients", \A k \in 1..Len(r.rows) :
                        /\ Len(r.rows[k]) = 2 * r.l + 1
                        /\ \A m \in 1..Len(r.rows[k]) :
                             /\ Len(r.rows[k][m]) = 2 * r.lp + 1
                             /\ \A q \in 1..Len(r.rows[k][m]) :
                                  LET a == m - 1 - r.l b == q - 1 - r.lp
                                  IN  FxClose(r.rows[k][m][q], IF Abs(a - b) > k - 1 THEN FxZero ELSE Ck(k - 1, r.l, a, r.lp, b), FxMicro(5010))>> >>)
    [] r.kind = "uop" -> Uop(r)
    [] r.kind = "soc" -> IF ~Known(r.shells, r.op) THEN "unknown-orbital"
         ELSE Clauses(<< <<"not-xi-L.S", OneBodyIs(r.shells, DecL(r.shells, r.op), LAMBDA o : SOCOn(r.xi, o), FxMul(Tol, FxAdd(FxOne, BAbs(r.xi))))>> >>)
    [] r.kind = "field" -> IF ~Known(r.shells, r.op) THEN "unknown-orbital"
         ELSE Clauses(<< <<"not-h.S", OneBodyIs(r.shells, DecL(r.shells, r.op), LAMBDA o : FieldOn(r.h, o), FxMul(Tol, FxAdd(FxOne, FxAdd(BAbs(r.h[1]), FxAdd(BAbs(r.h[2]), BAbs(r.h[3]))))))>> >>)
    [] OTHER -> "unknown-record"
INSTANCE TraceBase WITH Judge <- J
=============================================================================

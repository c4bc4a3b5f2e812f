------------------------------ MODULE C22Trace ------------------------------
EXTENDS Ham, TraceData
VARIABLES i, verdict
Cplx(z) == <<z[1], z[2]>>
\* a recorded operator on labelled orbitals as a matrix (terms must be one creator, one annihilator)
LabOp(r, js) == [k \in 1..Len(js) |-> [t |-> << <<LabIx(r.shells, r.nb, js[k].to), "c">>, <<LabIx(r.shells, r.nb, js[k].from), "a">> >>, v |-> Cplx(js[k].v)]]
LabM(r, js) == LET o == LabOp(r, js) IN TLCEval([p \in {<<o[k].t[1][1], o[k].t[2][1]>> : k \in 1..Len(o)} |->
                  CxSum([k \in 1..Len(o) |-> IF <<o[k].t[1][1], o[k].t[2][1]>> = p THEN o[k].v ELSE CxZero])])
MAtS(f, a, b) == IF <<a, b>> \in DOMAIN f THEN f[<<a, b>>] ELSE CxZero
\* ---- the operator under test: terms by their first (rightmost) step
Conserving(t) == LET c == Cardinality({k \in 1..Len(t) : t[k][2] = "c"}) IN 2 * c = Len(t) /\ c <= 2
First(op, n) == TLCEval([x \in 0..n |-> SelectSeq(op, LAMBDA e :
   LET z == IF Len(e.t) = 0 \/ e.t[Len(e.t)][2] = "c" THEN n ELSE e.t[Len(e.t)][1] IN z = x)])
OpOn(first, n, s) == \* the action on a product state
  LET act == SeqOf(s \cup {n}, <<>>)
      RECURSIVE Cat(_)
      Cat(k) == IF k > Len(act) THEN <<>> ELSE first[act[k]] \o Cat(k + 1)
  IN  ApplyOp(Cat(1), (s :> CxOne))
\* ---- what the Hamiltonian has to be
CFGiven(r) == [x \in {r.cf[k].name : k \in 1..Len(r.cf)} |-> r.cf[CHOOSE k \in 1..Len(r.cf) : r.cf[k].name = x].v]
KnownM(r) == MergeM(<< SOCM(r.shells, 1, r.xi[1]), SOCM(r.shells, 2, r.xi[2]), FieldM(r.shells, r.h),
                       LevelM(r.shells, 2, FxNeg(DCd(r.n0[2], r.n0[1], r.c, r.Fdd, r.Fpd, r.Gpd))),
                       LevelM(r.shells, 1, FxNeg(DCp(r.n0[2], r.c, r.Fpd, r.Gpd))) >>)
Blocks4(r) == PDBlocks(r.Fdd, r.Fpp, r.Fpd, r.Gpd)
SubM(f, g) == LET D == DOMAIN f \cup DOMAIN g IN TLCEval([p \in D |-> CxSub(MAtS(f, p[1], p[2]), MAtS(g, p[1], p[2]))])
SameM(f, g, tol) == \A p \in DOMAIN f \cup DOMAIN g : CxClose(MAtS(f, p[1], p[2]), MAtS(g, p[1], p[2]), tol)
\* ---- the crystal field in an arbitrary orthonormal basis of the bath
Dorb(r) == {Ix(r.shells, o) : o \in ShellSet(r.shells, 2)}
Bset(r, b0) == {BathIx(r.shells, r.nb, 2, b0 + k) : k \in 0..9}
Dense2(f, R, C) == TLCEval([p \in R \X C |-> MAtS(f, p[1], p[2])])
Mul2(A, B, R, M, C) == LET q == SeqOf(M, <<>>) IN TLCEval([p \in R \X C |-> CxSum([k \in 1..Len(q) |-> CxMul(A[<<p[1], q[k]>>], B[<<q[k], p[2]>>])])])
Trace2(A, R) == LET q == SeqOf(R, <<>>) IN CxSum([k \in 1..Len(q) |-> A[<<q[k], q[k]>>]])
BathRight(r, f, b0, eEg, eT2g, vEg, vT2g, tol) ==
  LET D == Dorb(r) B == Bset(r, b0)
      V == Dense2(f, B, D) W == Dense2(f, D, B) E == Dense2(f, B, B)
      EV == Mul2(E, V, B, B, D) EEV == Mul2(E, EV, B, B, D) E2 == Mul2(E, E, B, B, B)
      Vm(s, m) == Ix(r.shells, <<2, s, m>>)
      Mom(k) == SpinBlocks(CubTab(FxMul(FxMul(vEg, vEg), IF k = 0 THEN FxOne ELSE IF k = 1 THEN eEg ELSE FxMul(eEg, eEg)),
                                  FxMul(FxMul(vT2g, vT2g), IF k = 0 THEN FxOne ELSE IF k = 1 THEN eT2g ELSE FxMul(eT2g, eT2g))), Vm, Vm)
      Tr(a, b) == CxR(FxAdd(FxScale(a, 4), FxScale(b, 6)))
  IN  /\ \A p \in B \X D : CxClose(V[p], CxConj(W[<<p[2], p[1]>>]), tol)
      /\ \A p \in B \X B : CxClose(E[p], CxConj(E[<<p[2], p[1]>>]), tol)
      /\ SameM(Mul2(W, V, D, B, D), Mom(0), tol) /\ SameM(Mul2(W, EV, D, B, D), Mom(1), tol) /\ SameM(Mul2(W, EEV, D, B, D), Mom(2), tol)
      /\ CxClose(Trace2(E, B), Tr(eEg, eT2g), tol) /\ CxClose(Trace2(E2, B), Tr(FxMul(eEg, eEg), FxMul(eT2g, eT2g)), tol)
CFRight(r, f, tol) ==
  LET p == CFParams(CFGiven(r))
      D == Dorb(r) con == HasCon(r.shells, r.nb, r.nv)
      bath == Bset(r, 0) \cup (IF con THEN Bset(r, 10) ELSE {})
      zero(x) == CxClose(f[x], CxZero, tol)
  IN  IF r.bathbasis = "spherical" /\ ~SameM(f, CFMatrix(r.shells, r.nb, r.nv, p), tol) THEN "crystal-field"
      ELSE Clauses(<<
        <<"crystal-field-outside-shell", \A x \in DOMAIN f : zero(x) \/ (x[1] \in D \cup bath /\ x[2] \in D \cup bath)>>,
        <<"crystal-field-levels", SameM(Dense2(f, D, D), CFImp(r.shells, p), tol)>>,
        <<"baths-coupled", \A x \in DOMAIN f : zero(x) \/ ~(x[1] \in Bset(r, 0) /\ x[2] \in bath \ Bset(r, 0))>>,
        <<"valence-bath", BathRight(r, f, 0, p.e_val_eg, p.e_val_t2g, p.v_val_eg, p.v_val_t2g, tol)>>,
        <<"conduction-bath", con => BathRight(r, f, 10, p.e_con_eg, p.e_con_t2g, p.v_con_eg, p.v_con_t2g, tol)>> >>)
HamRight(r) ==
  LET op == TLCEval(DecOp(r.op)) n == NOrbs(r.shells, r.nb)
      first == First(op, n)
      one == TLCEval([j \in 0..(n - 1) |-> OpOn(first, n, {j})])
      got == TLCEval([p \in {q \in (0..(n - 1)) \X (0..(n - 1)) : {q[1]} \in DOMAIN one[q[2]]} |-> one[p[2]][{p[1]}]])
      known == KnownM(r)
      known2 == IF r.kind = "ham" THEN MergeM(<<known, LabM(r, r.h0)>>) ELSE known
      tol == FxNano(10)
      rest == SubM(got, known2)
      tab == OrbTab(r.shells)
      all == Pairs(tab)
      h1 == OpOfMatrix(got)
      f1 == First(h1, n)
      PairRight(a, b) ==
        LET s == {a, b}
            u == IF a \in DOMAIN tab /\ b \in DOMAIN tab THEN UOn(Blocks4(r), r.shells, tab, all, s) ELSE Empty
        IN  StateClose(OpOn(first, n, s), AddStates(u, OpOn(f1, n, s), CxOne), tol)
  IN  IF ~(\A k \in 1..Len(op) : (\A j \in 1..Len(op[k].t) : op[k].t[j][1] \in 0..(n - 1))) THEN "orbital-number"
      ELSE IF ~(\A k \in 1..Len(op) : Conserving(op[k].t)) THEN "particle-number"
      ELSE IF ~StateClose(OpOn(first, n, {}), Empty, tol) THEN "constant"
      ELSE IF r.kind = "ham" /\ ~(\A p \in DOMAIN rest : CxClose(rest[p], CxZero, tol)) THEN "one-electron-terms"
      ELSE IF r.kind = "hamcf" /\ CFRight(r, rest, tol) # "ok" THEN CFRight(r, rest, tol)
      ELSE IF ~(\A k \in 1..Len(r.pairs) : PairRight(r.pairs[k][1], r.pairs[k][2])) THEN "two-electron-terms"
      ELSE "ok"
J(r) ==
  CASE r.kind \in {"ham", "hamcf"} -> HamRight(r)
    [] r.kind = "cf" -> CFRight(r, LabM(r, r.out), FxPico(100))
    [] r.kind = "cffile" ->
         LET p == CFParams(CFGiven(r))
             want == <<p.e_imp, p.e_deltaO_imp, p.e_val_eg, p.e_val_t2g, p.e_con_eg, p.e_con_t2g, p.v_val_eg, p.v_val_t2g, p.v_con_eg, p.v_con_t2g>>
         IN  Clauses(<< <<"crystal-field-parameters", Len(r.out) = 10 /\ \A k \in 1..10 : FxClose(r.out[k], want[k], FxPico(1))>> >>)
    [] r.kind = "dc" ->
         LET want == IF r.both THEN << DCd(r.n0[2], r.n0[1], r.c, r.Fdd, r.Fpd, r.Gpd), DCp(r.n0[2], r.c, r.Fpd, r.Gpd) >> ELSE << DCdOnly(r.n0[2], r.c, r.Fdd) >>
         IN  Clauses(<< <<"double-counting", Len(r.out) = Len(want) /\ \A k \in 1..Len(want) : FxClose(r.out[k], want[k], FxPico(100))>> >>)
    [] r.kind = "refuse" -> Clauses(<< <<"accepted-bad-input", r.refused>> >>)
    [] OTHER -> "unknown-record"
INSTANCE TraceBase WITH Judge <- J
=============================================================================

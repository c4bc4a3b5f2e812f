------------------------------ MODULE C15Trace ------------------------------
(***************************************************************************)
(* RIXS maps.  Every entry is judged on its own state, operators and       *)
(* incoming energy:  psi3 = Tout (wIn + i d1 + e - H)^-1 Tin psi,          *)
(* entry = <psi3| (wLoss + i d2 + e - H)^-1 |psi3>.  The linear solver may *)
(* stop at a relative residual of 10^-5, which bounds the deviation.       *)
(***************************************************************************)
EXTENDS Resolvent, Dist, TraceData
VARIABLES i, verdict
Z(w, delta, e) == <<FxAdd(w, e), delta>>
Big(phi) == {s \in DOMAIN phi : FxLe(FxMul(FxPico(1), FxNano(1)), CxAbs2(phi[s]))}
\* sum of the strengths: a bound of the norm of the operator
OpBound(op) == FxSum([k \in 1..Len(op) |-> FxSqrt(CxAbs2(op[k].v))])
\* intermediate state for one incoming operator and energy, with its bound of error
Middle(op, restr, tin, psi, z) ==
  LET phi == ApplyOpR(tin, psi, restr) S == Big(phi) IN
  IF S = {} THEN [st |-> Empty, err |-> FxZero]
  ELSE LET basis == ActiveBasis(op, restr, S)
           H == DenseOf(MatrixOf(op, restr, basis), Len(basis))
           v == VecOf(phi, basis)
       IN  [st |-> StateOf(Solve(ZMinus(H, z), v), basis),
            err |-> FxDiv(FxMul(FxMicro(15), FxSqrt(VNorm2(v))), BAbs(z[2]))]
Final(op, restr, tout, mid, nw, zs, d2, cut, g) ==
  LET phi == ApplyOpR(tout, mid.st, restr)
      S == Big(phi)
      e3 == FxMul(mid.err, OpBound(tout))
      ad2 == BAbs(d2)
  IN  IF S = {} THEN
         \* at most what the solver may leave
         IF \A k \in 1..nw : CxIsReal(g[k]) /\ FxLe(FxSqrt(CxAbs2(g[k])), FxAdd(FxPico(1), FxDiv(FxScale(FxMul(e3, e3), 2), ad2))) THEN "ok" ELSE "annihilated-not-zero"
      ELSE LET basis == ActiveBasis(op, restr, S)
               H == DenseOf(MatrixOf(op, restr, basis), Len(basis))
               v == VecOf(phi, basis)
               nv == FxSqrt(VNorm2(v))
               \* results cut off after the second application, before and after normalisation
               de == FxAdd(e3, FxMul(FxSqrt(FxMul(cut, FxInt(2 * Cardinality(S)))), FxAdd(nv, FxOne)))
               tol == FxAdd(FxPico(100), FxDiv(FxAdd(FxMul(FxMicro(1), FxMul(nv, nv)), FxAdd(FxScale(FxMul(nv, de), 2), FxMul(de, de))), ad2))
           IN  IF \A k \in 1..nw : LET want == ResolventEl(H, v, zs[k]) IN
                    /\ CxIsReal(g[k])
                    /\ FxLe(BAbs(BSub(g[k][1], want[1])), tol) /\ FxLe(BAbs(BSub(g[k][2], want[2])), tol)
               THEN "ok" ELSE "not-the-two-step-formula"
FirstOf(S) == IF S = {} THEN "ok" ELSE CHOOSE x \in S : TRUE
Entries(r, g) ==
  LET op == DecOp(r.op) restr == DecRestr(r.restr) nw == Len(r.wloss)
      bad == {c \in (1..Len(r.psis)) \X (1..Len(r.tin)) \X (1..Len(r.win)) :
               LET p == c[1] a == c[2] w == c[3]
                   mid == TLCEval(Middle(op, restr, DecOp(r.tin[a]), DecState(r.psis[p]), Z(r.win[w], r.d1, r.es[p])))
                   zs == [k \in 1..nw |-> Z(r.wloss[k], r.d2, r.es[p])]
               IN  \E b \in 1..Len(r.tout) : Final(op, restr, DecOp(r.tout[b]), mid, nw, zs, r.d2, r.cut, g[p][a][b][w]) # "ok"}
  IN  IF bad = {} THEN "ok" ELSE "not-the-two-step-formula"
Valid(r) == IF r.pmode = "H_build" THEN {1} ELSE 1..Len(r.res)
J(r) ==
  IF r.status # "ok" THEN "communication"
  ELSE IF ~AllRan(r) THEN "raised"
  ELSE LET shape == <<Len(r.psis), Len(r.tin), Len(r.tout), Len(r.win), Len(r.wloss)>> IN
    IF \E p \in Valid(r) : r.res[p].ok.shape # shape THEN "shape"
    ELSE IF \E p \in Valid(r) : r.res[p].ok.g # r.res[1].ok.g /\ r.pmode \in {"wIn", "H_build_wIn"} THEN "differs-between-processes"
    ELSE IF \E p \in 1..Len(r.res) : ~r.res[p].ok.same THEN "input-changed"
    ELSE LET b == {Entries(r, r.res[p].ok.g) : p \in (IF r.pmode = "serial" THEN {1, Len(r.res)} ELSE {1})} IN FirstOf(b \ {"ok"})
INSTANCE TraceBase WITH Judge <- J
=============================================================================

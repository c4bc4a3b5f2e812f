------------------------------ MODULE C14Trace ------------------------------
(***************************************************************************)
(* Spectra of batches.  Each entry is judged on its own state and operator *)
(* alone, so an influence of the rest of the batch is a contradiction.     *)
(***************************************************************************)
EXTENDS Resolvent, Dist, TraceData
VARIABLES i, verdict
Tol == FxNano(500)
\* relative to the weight n2 of the state the operator makes
Near(g, want, n2) == CxIsReal(g) /\ LET m == FxAdd(FxPico(1), FxMul(Tol, FxAdd(n2, FxMax(BAbs(want[1]), BAbs(want[2]))))) IN
                       FxLe(BAbs(BSub(g[1], want[1])), m) /\ FxLe(BAbs(BSub(g[2], want[2])), m)
Z(w, delta, e) == <<FxAdd(w, e), delta>>
Entry(r, p, t, g) ==
  LET restr == DecRestr(r.restr)
      op == DecOp(r.op)
      phi == ApplyOpR(DecOp(r.tops[t]), DecState(r.psis[p]), restr)
      \* cancelled contributions are no part of the state
      S == {s \in DOMAIN phi : FxLe(FxPico(1), CxAbs2(phi[s]))}
      nw == Len(r.w)
  IN  IF S = {} THEN IF Len(g) = nw /\ \A k \in 1..nw : CxClose(g[k], CxZero, FxNano(1)) THEN "ok" ELSE "annihilated-not-zero"
      ELSE LET basis == ActiveBasis(op, restr, S)
               H == DenseOf(MatrixOf(op, restr, basis), Len(basis))
               v == VecOf(phi, basis)
           IN  Clauses(<<
                 <<"length", Len(g) = nw>>,
                 <<"not-the-resolvent-of-its-own-state", \A k \in 1..nw :
                     Near(g[k], IF r.k >= Len(basis) THEN ResolventEl(H, v, Z(r.w[k], r.delta, r.es[p]))
                                   ELSE KrylovEl(Projected(H, KrylovBasis(H, v, r.k)), VNorm2(v), Z(r.w[k], r.delta, r.es[p])), VNorm2(v))>> >>)
RECURSIVE All(_, _, _, _)
All(r, g, p, t) ==
  IF p > Len(r.psis) THEN "ok"
  ELSE IF t > Len(r.tops) THEN All(r, g, p + 1, 1)
  ELSE LET x == Entry(r, p, t, g[p][t]) IN IF x = "ok" THEN All(r, g, p, t + 1) ELSE x
\* processes whose result counts
Valid(r) == IF r.pmode = "H_build" THEN {1} ELSE 1..Len(r.res)
CloseAll(a, b) == \A p \in 1..Len(a) : \A t \in 1..Len(a[p]) : \A k \in 1..Len(a[p][t]) : CxClose(a[p][t][k], b[p][t][k], FxNano(1))
J(r) ==
  IF r.status # "ok" THEN "communication"
  ELSE IF ~AllRan(r) THEN "raised"
  ELSE LET g(p) == r.res[p].ok.g shape == <<Len(r.psis), Len(r.tops), Len(r.w)>> IN
    IF \E p \in Valid(r) : r.res[p].ok.shape # shape THEN "shape"
    ELSE IF ~(\A p \in Valid(r) : CloseAll(g(p), g(1))) THEN "differs-between-processes"
    ELSE IF \E p \in 1..Len(r.res) : ~r.res[p].ok.same THEN "input-changed"
    ELSE All(r, g(1), 1, 1)
INSTANCE TraceBase WITH Judge <- J
=============================================================================

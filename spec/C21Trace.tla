------------------------------ MODULE C21Trace ------------------------------
EXTENDS Inertia, TraceData
VARIABLES i, verdict
BasisOf(r) == TLCEval([k \in 1..Len(r.basis) |-> SetOf(r.basis[k])])
\* one run: [es, psis]
RunRight(r, H, B, run, scale) ==
  LET n == Len(B) num == Len(run.es)
      psi == TLCEval([k \in 1..Len(run.psis) |-> TLCEval(DecState(run.psis[k]))])
      v == TLCEval([k \in 1..Len(run.psis) |-> VecOf(psi[k], B)])
      eta == FxMul(FxMicro(1), scale)
      \* what the weight cutoff may remove: at most n components of weight r.cut
      lost == FxSqrt(FxScale(r.cut, n))
      \* the residual left by lost components is at most (|H| + |e|) times their norm; |H| is at most its largest row sum
      rows == TLCEval([a \in 1..n |-> FxSum([b \in 1..n |-> FxAdd(BAbs(H[a][b][1]), BAbs(H[a][b][2]))])])
      reach == rows[CHOOSE a \in 1..n : \A b \in 1..n : FxLe(rows[b], rows[a])]
      size == IF FxLt(scale, reach) THEN reach ELSE scale
      tolv == FxAdd(FxMul(FxNano(200), scale), FxMul(FxScale(lost, 3), size))
      tolo == FxAdd(FxNano(10), FxScale(lost, 3))
      res(k) == LET w == VAxpy(MVec(H, v[k]), CxR(FxNeg(run.es[k])), v[k]) IN FxSqrt(VNorm2(w))
      starts == {k \in 1..num : k = 1 \/ FxLt(FxScale(eta, 2), FxSub(run.es[k], run.es[k - 1]))}
  IN  Clauses(<<
        <<"number-of-states", num = r.num /\ Len(run.psis) = r.num>>,
        <<"not-real", \A k \in 1..num : FxIsReal(run.es[k])>>,
        <<"not-ascending", \A k \in 1..(num - 1) : FxLe(run.es[k], FxAdd(run.es[k + 1], FxPico(10)))>>,
        <<"outside-basis", \A k \in 1..num : DOMAIN psi[k] \subseteq SetOf(B)>>,
        <<"weight-below-cutoff", \A k \in 1..num : \A s \in DOMAIN psi[k] : FxLe(r.cut, FxAdd(CxAbs2(psi[k][s]), FxPico(1)))>>,
        <<"not-orthonormal", \A a \in 1..num : \A b \in 1..a : CxClose(VDot(v[a], v[b]), IF a = b THEN CxOne ELSE CxZero, tolo)>>,
        <<"not-an-eigenstate", \A k \in 1..num : FxLe(res(k), tolv)>>,
        <<"eigenvalue-missing", \A k \in starts : CountBelow(H, FxSub(run.es[k], eta)) <= k - 1>> >>)
\* r.uncut: the same states computed without cutoff. A product state whose weight in a non-degenerate
\* eigenstate is clearly above the cutoff is kept, whichever method is used.
KeepsWeights(r, scale) ==
  LET es == r.uncut.es num == Len(es)
      far(a, b) == FxLt(FxMul(FxMicro(1000), scale), BAbs(FxSub(es[a], es[b])))
      alone == {k \in 1..num : (k = 1 \/ far(k, k - 1)) /\ k < num /\ far(k, k + 1)}
  IN \A k \in alone :
       LET ref == TLCEval(DecState(r.uncut.psis[k]))
           big == TLCEval({s \in DOMAIN ref : FxLt(FxAdd(FxMul(r.cut, FxMicro(1100000)), FxPico(1)), CxAbs2(ref[s]))})
       IN \A q \in 1..Len(r.runs) : big \subseteq DOMAIN DecState(r.runs[q].psis[k])
RECURSIVE AllRuns(_, _, _, _, _)
AllRuns(r, H, B, scale, k) == IF k > Len(r.runs) THEN "ok"
  ELSE LET x == IF r.runs[k].ok THEN RunRight(r, H, B, r.runs[k], scale) ELSE "raised" IN IF x # "ok" THEN x ELSE AllRuns(r, H, B, scale, k + 1)
J(r) ==
  IF Has(r, "status") /\ r.status # "ok" THEN "processes-" \o r.status
  ELSE
  LET B == BasisOf(r)
      H == DenseOf(MatrixOf(DecOp(r.op), <<>>, B), Len(B))
      scale == FxAdd(FxOne, FxSum([k \in 1..Len(B) |-> BAbs(H[k][k][1])]))
      all == AllRuns(r, H, B, scale, 1)
  IN  IF all # "ok" THEN all
      ELSE IF Has(r, "uncut") /\ ~ KeepsWeights(r, scale) THEN "weight-above-cutoff-lost"
      ELSE Clauses(<< <<"energies-differ", \A k \in 2..Len(r.runs) : \A e \in 1..r.num : FxClose(r.runs[k].es[e], r.runs[1].es[e], FxMul(FxNano(100), scale))>> >>)
INSTANCE TraceBase WITH Judge <- J
=============================================================================

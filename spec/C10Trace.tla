------------------------------ MODULE C10Trace ------------------------------
EXTENDS HMatrix, Dist, TraceData
VARIABLES i, verdict
Tol == FxMicro(1)
\* to the precision of double arithmetic; an amplitude below the weight cutoff (10^-12) may be left out
Precise(f, g) == \A p \in DOMAIN f \cup DOMAIN g :
    LET a == MAt(f, p[1], p[2]) w == MAt(g, p[1], p[2])
    IN  CxClose(a, w, FxPico(100)) \/ (CxIsZero(a) /\ CxClose(w, CxZero, Tol))
Basis(r) == [k \in 1..Len(r.basis) |-> SetOf(r.basis[k])]
Good(m, r, want) == m.shape = <<Len(r.basis), Len(r.basis)>> /\ Precise(MEntries(m), want)
\* a very large basis: state number x consists of the orbitals perm[k] of the binary digits k of x
Two(k) == 2^k
StateNo(r, x) == {r.perm[k] : k \in {y \in 1..r.n : (x \div Two(y - 1)) % 2 = 1}}
RECURSIVE NoSum(_, _, _)
NoSum(r, s, k) == IF k > r.n THEN 0 ELSE (IF r.perm[k] \in s THEN Two(k - 1) ELSE 0) + NoSum(r, s, k + 1)
No(r, s) == NoSum(r, s, 1)
LargeWants(r) == LET op == TLCEval(DecOp(r.op)) IN
  TLCEval([k \in 1..Len(r.cols) |->
    LET v == TLCEval(ApplyOpR(op, (StateNo(r, r.cols[k]) :> CxOne), <<>>))
    IN  TLCEval([x \in {No(r, s) : s \in DOMAIN v} \cap 0..(r.count - 1) |-> v[StateNo(r, x)]])])
LargeGood(r, m, wants) ==
  /\ m.shape = <<r.count, r.count>>
  /\ Len(m.cols) = Len(r.cols)
  /\ \A k \in 1..Len(r.cols) :
       LET e == m.cols[k]
           got == TLCEval([x \in {e[2][q][1] : q \in 1..Len(e[2])} |-> LET y == e[2][CHOOSE q \in 1..Len(e[2]) : e[2][q][1] = x] IN <<y[2], y[3]>>])
       IN  /\ e[1] = r.cols[k]
           /\ Cardinality(DOMAIN got) = Len(e[2])
           /\ \A x \in DOMAIN got \cup DOMAIN wants[k] :
                CxClose(IF x \in DOMAIN got THEN got[x] ELSE CxZero, IF x \in DOMAIN wants[k] THEN wants[k][x] ELSE CxZero, FxPico(100))
J(r) ==
  CASE r.kind = "matrix" ->
    IF r.status # "ok" THEN "communication"
    ELSE IF ~AllRan(r) THEN "rank-raised"
    ELSE LET want == MatrixOf(DecOp(r.op), <<>>, Basis(r)) IN
    Clauses(<<
      <<"matrix-" \o r.mode, \A k \in 1..Len(r.res) : Good(r.res[k].ok, r, want)>>,
      <<"hermitian", r.herm => \A k \in 1..Len(r.res) : HermitianM(MEntries(r.res[k].ok), Tol)>> >>)
    [] r.kind = "from_dict" ->
    IF r.status # "ok" THEN "communication"
    ELSE IF ~AllRan(r) THEN "rank-raised"
    ELSE LET want == MatrixOf(DecOp(r.op), DecRestr(r.restr), Basis(r)) IN
    Clauses(<<
      <<"matrix-" \o r.mode \o "-" \o r.pmode,
         IF r.local THEN \* the process-local parts add up
                         Precise(MSum([k \in 1..Len(r.res) |-> MEntries(r.res[k].ok.h)]), want)
                    ELSE \A k \in 1..Len(r.res) : Good(r.res[k].ok.h, r, want)>>,
      <<"basis-index", \A k \in 1..Len(r.res) :
           /\ Len(r.res[k].ok.index) = Len(r.basis)
           /\ \A m \in 1..Len(r.res[k].ok.index) :
                LET e == r.res[k].ok.index[m] IN Basis(r)[e[2] + 1] = SetOf(e[1])>> >>)
    [] r.kind = "large" ->
    IF r.status # "ok" THEN "communication"
    ELSE IF ~AllRan(r) THEN "rank-raised"
    ELSE LET wants == LargeWants(r) IN
    Clauses(<< <<"large-matrix-" \o r.mode \o r.pmode, \A k \in 1..Len(r.res) : LargeGood(r, r.res[k].ok, wants)>> >>)
    [] OTHER -> "unknown-record"
INSTANCE TraceBase WITH Judge <- J
=============================================================================

------------------------------ MODULE C20Trace ------------------------------
EXTENDS Thermal, TraceData
VARIABLES i, verdict
Tol == FxNano(100)
J(r) ==
  CASE r.kind = "refuse" -> Clauses(<< <<"accepted-mismatch", r.refused>> >>)
    [] r.kind = "average" ->
       LET w == TLCEval(Weights(r.es, r.T)) IN
       Clauses(<< <<"shape", r.shape = r.wantshape /\ (Len(r.os) > 0 => Len(r.res) = Len(r.os[1]))>>,
                  <<"not-canonical-average", \A k \in 1..Len(r.res) :
                      LET os == [m \in 1..Len(r.os) |-> <<r.os[m][k][1], r.os[m][k][2]>>]
                          big == FxAdd(FxMicro(1), FxSum([m \in 1..Len(os) |-> FxMax(BAbs(os[m][1]), BAbs(os[m][2]))]))
                          want == AverageW(w, os)  got == <<r.res[k][1], r.res[k][2]>>
                      IN  CxIsReal(got) /\ FxLe(BAbs(FxSub(got[1], want[1])), FxMul(Tol, big)) /\ FxLe(BAbs(FxSub(got[2], want[2])), FxMul(Tol, big))>>,
                  <<"inputs-modified", r.kept>> >>)
    [] OTHER -> "unknown-record"
INSTANCE TraceBase WITH Judge <- J
=============================================================================

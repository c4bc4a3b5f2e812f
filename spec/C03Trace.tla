------------------------------ MODULE C03Trace ------------------------------
EXTENDS Fock, TraceData
VARIABLES i, verdict
Tol == FxPico(1)
\* dropped only when the weight is below the cutoff (one part in 10^6 of slack)
KeptRight(got, want, cut) ==
  \A s \in DOMAIN want :
     LET w == CxAbs2(want[s]) IN
     FxLt(FxAdd(cut, FxMul(cut, FxMicro(1))), w) => s \in DOMAIN got
DroppedRight(got, want, cut) ==
  \A s \in DOMAIN got :
     LET w == CxAbs2(Amp(want, s)) IN ~FxLt(w, FxSub(cut, FxMul(cut, FxMicro(1))))
ValuesRight(got, want) == \A s \in DOMAIN got : CxClose(got[s], Amp(want, s), Tol)
J(r) ==
  CASE r.kind = "apply" ->
    LET op == DecOp(r.op)
        psi == DecState(r.psi)
        full == ApplyOp(op, psi)
        restr == DecRestr(r.restr)
        want == Project(full, restr)
        got == DecState(r.out)
    IN  Clauses(<<
          <<"restriction-violated", \A s \in DOMAIN got : Allowed(s, restr)>>,
          <<"amplitude", ValuesRight(got, want)>>,
          <<"lost-contribution", KeptRight(got, want, r.cut)>>,
          <<"kept-below-cutoff", DroppedRight(got, want, r.cut)>>,
          <<"operator-changed", r.opsame>>,
          <<"state-changed", r.psisame>> >>)
    [] r.kind = "linear" ->     \* O(x psi1 + y psi2) recorded against x O psi1 + y O psi2 recorded
    LET x == <<r.x[1], r.x[2]>>
        y == <<r.y[1], r.y[2]>>
        want == AddStates(ScaleState(DecState(r.o1), x), DecState(r.o2), y)
    IN  Clauses(<< <<"linear", StateClose(DecState(r.out), want, FxNano(1))>> >>)
    [] OTHER -> "unknown-record"
INSTANCE TraceBase WITH Judge <- J
=============================================================================

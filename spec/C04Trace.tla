------------------------------ MODULE C04Trace ------------------------------
EXTENDS Fock, TraceData
VARIABLES i, verdict
RECURSIVE AbsSum(_, _, _)
AbsSum(p, S, acc) == IF S = {} THEN acc
                     ELSE LET s == CHOOSE x \in S : TRUE IN AbsSum(p, S \ {s}, FxAdd(acc, FxSqrt(CxAbs2(p[s]))))
RECURSIVE Walk(_, _, _, _, _)
\* the state must agree up to what the cutoff may remove from each column and from the sum
Walk(r, op, restr, k, known) ==
  IF k > Len(r.calls) THEN "ok"
  ELSE LET c == r.calls[k]
           psi == DecState(c.psi)
           tol == FxAdd(FxPico(10), FxMul(FxSqrt(c.cut), FxAdd(FxOne, AbsSum(psi, DOMAIN psi, FxZero))))
           keys == {SetOf(c.memo[m].s) : m \in 1..Len(c.memo)}
           entry(m) == DecState(c.memo[m].v)
           ctol == FxAdd(FxPico(10), FxSqrt(c.cut))
           v == Clauses(<<
                  <<"result", StateClose(DecState(c.out), ApplyOpR(op, psi, restr), tol)>>,
                  <<"memo-missing-entry", DOMAIN psi \subseteq keys>>,
                  <<"memo-lost-entry", known \subseteq keys>>,
                  <<"memo-entry-wrong",
                    \A m \in 1..Len(c.memo) :
                       StateClose(entry(m), ApplyOpR(op, (SetOf(c.memo[m].s) :> CxOne), restr), ctol)>>,
                  <<"argument-changed", c.same>> >>)
       IN  IF v # "ok" THEN v ELSE Walk(r, op, restr, k + 1, keys)
J(r) == CASE r.kind = "memo" -> Walk(r, DecOp(r.op), DecRestr(r.restr), 1, {})
          [] OTHER -> "unknown-record"
INSTANCE TraceBase WITH Judge <- J
=============================================================================

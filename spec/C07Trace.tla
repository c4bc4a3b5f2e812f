------------------------------ MODULE C07Trace ------------------------------
EXTENDS Fock, TraceData
VARIABLES i, verdict
J(r) ==
  CASE r.kind = "expand" ->
    LET op == DecOp(r.op)
        restr == DecRestr(r.restr)
        seeds == [k \in 1..Len(r.seeds) |-> SetOf(r.seeds[k])]
        out == [k \in 1..Len(r.out) |-> SetOf(r.out[k])]
        want == Closure(op, restr, SetOf(seeds))
        keys == {SetOf(r.store[m].s) : m \in 1..Len(r.store)}
    IN  Clauses(<<
      <<"seeds-first-in-order", Len(out) >= Len(seeds) /\ \A k \in 1..Len(seeds) : out[k] = seeds[k]>>,
      <<"unreachable-state", SetOf(out) \subseteq want>>,
      <<"missing-state", want \subseteq SetOf(out)>>,
      <<"state-twice", Len(out) = Cardinality(SetOf(out))>>,
      <<"depends-on-store", r.fresh = r.out>>,
      <<"column-missing", want \subseteq keys>>,
      <<"column-wrong", \A m \in 1..Len(r.store) :
           StateClose(DecState(r.store[m].v), ApplyOpR(op, (SetOf(r.store[m].s) :> CxOne), restr), FxMicro(2))>>,
      <<"argument-changed", r.same>> >>)
    [] OTHER -> "unknown-record"
INSTANCE TraceBase WITH Judge <- J
=============================================================================

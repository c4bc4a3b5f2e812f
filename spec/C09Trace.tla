------------------------------ MODULE C09Trace ------------------------------
EXTENDS Share, TraceData
VARIABLES i, verdict
J(r) ==
  CASE r.kind = "division" ->
    Clauses(<< <<"exact-cover", ExactCover(r.parts, r.tasks)>>,
               <<"balanced", Balanced(r.parts)>>,
               <<"depends-on-history", r.again = r.parts>>,
               <<"list-changed", r.same>> >>)
    [] OTHER -> "unknown-record"
INSTANCE TraceBase WITH Judge <- J
=============================================================================

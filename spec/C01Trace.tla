------------------------------ MODULE C01Trace ------------------------------
EXTENDS Repr, TraceData
VARIABLES i, verdict
J(r) ==
  LET s == {r.occ[k] : k \in 1..Len(r.occ)} IN
  CASE r.kind = "pairs" ->
         Clauses([k \in 1..Len(r.conv) |->
            LET c == r.conv[k] IN
            <<"converts-" \o c.src \o "-to-" \o c.dst,
              c.type = c.dst /\ c.val = Enc(c.dst, r.n, s) /\ c.unchanged>>])
    [] r.kind = "chain" ->
         Clauses([k \in 1..Len(r.steps) |->
            LET c == r.steps[k] IN
            <<"chain-step-to-" \o c.dst, c.type = c.dst /\ c.val = Enc(c.dst, r.n, s)>>])
    [] OTHER -> "unknown-record"
INSTANCE TraceBase WITH Judge <- J
=============================================================================

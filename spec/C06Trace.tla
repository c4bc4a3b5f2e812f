------------------------------ MODULE C06Trace ------------------------------
EXTENDS Basis, TraceData
VARIABLES i, verdict
J(r) ==
  CASE r.kind = "basis" ->
    LET got == {{b[k] : k \in 1..Len(b)} : b \in {r.out[m] : m \in 1..Len(r.out)}}
        want == Configs(r.shells)
    IN  Clauses(<<
      <<"impossible-setting-accepted", MustRefuse(r.shells) => r.refused>>,
      <<"possible-setting-refused", ~MayRefuse(r.shells) => ~r.refused>>,
      <<"missing-configuration", r.refused \/ want \subseteq got>>,
      <<"extra-configuration", r.refused \/ got \subseteq want>>,
      <<"configuration-twice", r.refused \/ Len(r.out) = Cardinality(got)>>,
      <<"argument-changed", r.same>> >>)
    [] OTHER -> "unknown-record"
INSTANCE TraceBase WITH Judge <- J
=============================================================================

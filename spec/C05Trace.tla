------------------------------ MODULE C05Trace ------------------------------
EXTENDS Layout, TraceData
VARIABLES i, verdict
Lab(j) == IF j.imp THEN <<"imp", j.l, j.s, j.m>> ELSE <<"bath", j.ls, j.tup, j.b>>
J(r) ==
  CASE r.kind = "system" ->
    LET L == Labels(r.sys) IN
    Clauses(<<
      <<"label-to-index", /\ Len(r.c2i) = Len(L)
                          /\ \A k \in 1..Len(L) : r.c2i[k].i = Index(r.sys, Lab(r.c2i[k].lab))>>,
      <<"every-index-used", {r.c2i[k].i : k \in 1..Len(r.c2i)} = 0..(Len(L) - 1)>>,
      <<"index-to-label", /\ Len(r.i2c) = Len(L) /\ \A k \in 1..Len(L) : Lab(r.i2c[k]) = L[k]>>,
      <<"unknown-label-accepted", \A k \in 1..Len(r.badlabels) :
            Index(r.sys, Lab(r.badlabels[k].lab)) = -1 => r.badlabels[k].refused>>,
      <<"index-out-of-range-accepted", \A k \in 1..Len(r.badindices) :
            r.badindices[k].i \notin 0..(Len(L) - 1) => r.badindices[k].refused>> >>)
    [] OTHER -> "unknown-record"
INSTANCE TraceBase WITH Judge <- J
=============================================================================

------------------------------ MODULE C12Trace ------------------------------
\* Dictionaries are recorded as sequences of <<key, value>> pairs.
EXTENDS Integers, Sequences, FiniteSets, Dist, TraceData
VARIABLES i, verdict
Keys(d) == {d[k][1] : k \in 1..Len(d)}
Pairs(d) == SetOfSeq(d)
IsDict(d) == Cardinality(Keys(d)) = Len(d)
Union(r) == UNION {Pairs(r.data[p]) : p \in 1..Len(r.data)}
Gather(r) ==
  LET P == Len(r.res) g(p) == r.res[p].ok IN
  Clauses(<<
    <<"more-sent-at-once-than-allowed", r.chunk > 0 => \A p \in 1..P : g(p).sent <= r.chunk>>,
    <<"total-not-the-union", \A p \in 1..P : IsDict(g(p).total) /\ Pairs(g(p).total) = Pairs(r.before[p]) \cup Union(r)>>,
    <<"contribution-altered", \A p \in 1..P : IsDict(g(p).data) /\ Pairs(g(p).data) = Pairs(r.data[p])>> >>)
Chunks(r) ==
  LET P == Len(r.res)
      g(p) == r.res[p].ok
      root == r.root + 1
      cs == g(root).chunks
  IN Clauses(<<
    <<"number-of-pieces-differs", \A p \in 1..P : Len(g(p).chunks) = Len(cs)>>,
    <<"other-processes-hold-nothing", \A p \in 1..P : p # root => \A k \in 1..Len(g(p).chunks) : g(p).chunks[k].none>>,
    <<"piece-too-large", \A k \in 1..Len(cs) : ~cs[k].none /\ IsDict(cs[k].d) /\ Len(cs[k].d) <= r.chunk>>,
    <<"pieces-overlap", \A k, m \in 1..Len(cs) : k # m => Keys(cs[k].d) \cap Keys(cs[m].d) = {}>>,
    <<"pieces-incomplete", UNION {Pairs(cs[k].d) : k \in 1..Len(cs)} = Pairs(r.data[root])>>,
    <<"contribution-altered", \A p \in 1..P : IsDict(g(p).data) /\ Pairs(g(p).data) = Pairs(r.data[p])>> >>)
J(r) == IF r.status # "ok" THEN "communication"
        ELSE IF ~AllRan(r) THEN "rank-raised"
        ELSE CASE r.kind = "gather" -> Gather(r) [] r.kind = "chunks" -> Chunks(r) [] OTHER -> "unknown-record"
INSTANCE TraceBase WITH Judge <- J
=============================================================================

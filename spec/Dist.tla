--------------------------------- MODULE Dist -------------------------------
\* Vocabulary of records of distributed runs: ranks' results must all be there.
EXTENDS Integers, Sequences, FiniteSets
SetOfSeq(q) == {q[k] : k \in 1..Len(q)}
AllRan(r) == r.status = "ok" /\ \A k \in 1..Len(r.res) : r.res[k].err = ""
=============================================================================

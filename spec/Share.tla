-------------------------------- MODULE Share -------------------------------
\* Division of a task list over processes.
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE TotLen(_, _)
TotLen(parts, r) == IF r = 0 THEN 0 ELSE Len(parts[r]) + TotLen(parts, r - 1)
Count(seq, x) == Cardinality({k \in 1..Len(seq) : seq[k] = x})
RECURSIVE CountAll(_, _, _)
CountAll(parts, x, r) == IF r = 0 THEN 0 ELSE Count(parts[r], x) + CountAll(parts, x, r - 1)
\* together exactly the list (as a multiset), none twice
ExactCover(parts, tasks) ==
  /\ TotLen(parts, Len(parts)) = Len(tasks)
  /\ \A k \in 1..Len(tasks) : CountAll(parts, tasks[k], Len(parts)) = Count(tasks, tasks[k])
Balanced(parts) == \A r, q \in 1..Len(parts) : Len(parts[r]) - Len(parts[q]) <= 1
=============================================================================

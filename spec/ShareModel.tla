----------------------------- MODULE ShareModel -----------------------------
(***************************************************************************)
(* Dealing tasks one at a time to the least loaded process (ties open)     *)
(* always ends in an exact and balanced division: what the property asks   *)
(* for is satisfiable for every number of tasks and processes.             *)
(***************************************************************************)
EXTENDS Share
CONSTANTS MaxT, MaxP
VARIABLES tasks, parts, next
Init == /\ \E n \in 0..MaxT, p \in 1..MaxP : tasks = [k \in 1..n |-> k] /\ parts = [r \in 1..p |-> <<>>]
        /\ next = 1
Next == /\ next <= Len(tasks)
        /\ \E r \in 1..Len(parts) :
             /\ \A q \in 1..Len(parts) : Len(parts[r]) <= Len(parts[q])
             /\ parts' = [parts EXCEPT ![r] = Append(@, tasks[next])]
        /\ next' = next + 1 /\ UNCHANGED tasks
Inv == next > Len(tasks) => ExactCover(parts, tasks) /\ Balanced(parts)
Partial == ExactCover(parts, SubSeq(tasks, 1, next - 1)) /\ Balanced(parts)
=============================================================================

----------------------------- MODULE GatherModel ----------------------------
(***************************************************************************)
(* Gathering dictionaries of different sizes with broadcasts, for every    *)
(* size assignment, chunk size and interleaving.  Process r contributes    *)
(* items <<r, 1>>..<<r, size[r]>> and starts from total <<0, r>> (its own   *)
(* earlier knowledge).  Every process runs its own program; a broadcast is *)
(* either a meeting of all processes or (Eager) the root posts and goes on. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS P, N, Eager
Ranks == 1..P
VARIABLES size, chunk,        \* instance
          k,                  \* k[r]: collectives r has taken part in
          counts,             \* counts[r]: what r learned about the sizes
          plan,               \* plan[r]: what r will take part in next
          total, posts
vars == <<size, chunk, k, counts, plan, total, posts>>
Items(r, lo, hi) == {<<r, j>> : j \in lo..hi}
Ceil(a, b) == (a + b - 1) \div b
Max(f) == CHOOSE m \in {f[r] : r \in Ranks} : \A r \in Ranks : f[r] <= m
Counting == [j \in 1..P |-> [root |-> j, what |-> "count", j |-> 0]]
Init == /\ size \in [Ranks -> 0..N] /\ chunk \in 1..(N + 1)
        /\ k = [r \in Ranks |-> 0] /\ counts = [r \in Ranks |-> [q \in Ranks |-> -1]]
        /\ plan = [r \in Ranks |-> Counting]
        /\ total = [r \in Ranks |-> {<<0, r>>}] /\ posts = <<>>
\* the value the root puts into a broadcast
Value(r, e) == CASE e.what = "count" -> size[r]
                 [] e.what = "all" -> Items(r, 1, size[r])
                 [] e.what = "nchunks" -> Ceil(size[r], chunk)
                 [] e.what = "chunk" -> Items(r, (e.j - 1) * chunk + 1, IF e.j * chunk < size[r] THEN e.j * chunk ELSE size[r])
\* what a process plans after it learned value v in step e
After(r, e, v, cn) ==
  LET rest == Tail(plan[r]) IN
  CASE e.what = "count" /\ e.root = P ->
         IF Max(cn) <= chunk THEN [j \in 1..P |-> [root |-> j, what |-> "all", j |-> 0]]
         ELSE [j \in 1..P |-> [root |-> j, what |-> "nchunks", j |-> 0]]
    [] e.what = "nchunks" -> [j \in 1..v |-> [root |-> e.root, what |-> "chunk", j |-> j]] \o rest
    [] OTHER -> rest
Take(r, e, v) ==
  LET cn == IF e.what = "count" THEN [counts[r] EXCEPT ![e.root] = v] ELSE counts[r]
  IN  [counts |-> cn, plan |-> After(r, e, v, cn),
       total |-> IF e.what \in {"all", "chunk"} THEN total[r] \cup v ELSE total[r]]
Step(S, e, v) ==
  /\ k' = [r \in Ranks |-> IF r \in S THEN k[r] + 1 ELSE k[r]]
  /\ counts' = [r \in Ranks |-> IF r \in S THEN Take(r, e, v).counts ELSE counts[r]]
  /\ plan' = [r \in Ranks |-> IF r \in S THEN Take(r, e, v).plan ELSE plan[r]]
  /\ total' = [r \in Ranks |-> IF r \in S THEN Take(r, e, v).total ELSE total[r]]
  /\ UNCHANGED <<size, chunk>>
Meet == /\ ~Eager /\ \A r \in Ranks : plan[r] # <<>>
        /\ \A r \in Ranks : Head(plan[r]) = Head(plan[1])
        /\ LET e == Head(plan[1]) IN Step(Ranks, e, Value(e.root, e))
        /\ UNCHANGED posts
Post(r) == /\ Eager /\ plan[r] # <<>> /\ Head(plan[r]).root = r /\ Len(posts) = k[r]
           /\ LET e == Head(plan[r]) IN posts' = Append(posts, [e |-> e, v |-> Value(r, e)]) /\ Step({r}, e, Value(r, e))
Get(r) == /\ Eager /\ plan[r] # <<>> /\ Head(plan[r]).root # r /\ Len(posts) > k[r] /\ posts[k[r] + 1].e = Head(plan[r])
          /\ Step({r}, Head(plan[r]), posts[k[r] + 1].v) /\ UNCHANGED posts
Next == Meet \/ \E r \in Ranks : Post(r) \/ Get(r)
Done == \A r \in Ranks : plan[r] = <<>>
NoDeadlock == Done \/ ENABLED Next
Union == UNION {Items(r, 1, size[r]) : r \in Ranks}
Delivered == Done => \A r \in Ranks : total[r] = {<<0, r>>} \cup Union
SameCount == Done => \A r \in Ranks : k[r] = k[1]
=============================================================================

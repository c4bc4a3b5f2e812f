----------------------------- MODULE BatchModel -----------------------------
(***************************************************************************)
(* A batch of states and operators worked off by P processes in the two    *)
(* modes.  "own": every process treats its share of the states and keeps   *)
(* its own memo; results are then broadcast in process order.  "all": all  *)
(* processes treat every entry together; the Hamiltonian columns stay with *)
(* the process that computed them.  The memo of an operator maps a product *)
(* state to the operator's result on it (abstractly: to the pair operator, *)
(* state).  Every result must be the pair of its own state and operator.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS P, NStates, NOps
Ranks == 1..P
St == 1..NStates
Ops == 1..NOps
VARIABLES content,       \* content[i]: product states of state i
          zero,          \* operators that annihilate everything
          mode, pos, memo, store, res, phase
vars == <<content, zero, mode, pos, memo, store, res, phase>>
PS == 1..2
\* division of the states: any exact division
VARIABLE owner
Init == /\ content \in [St -> SUBSET PS \ {{}}] /\ zero \in SUBSET Ops
        /\ mode \in {"own", "all"} /\ owner \in [St -> Ranks]
        /\ pos = [r \in Ranks |-> <<1, 1>>]          \* next entry <<outer, inner>> of process r
        /\ memo = [r \in Ranks |-> [o \in Ops |-> {}]]
        /\ store = [r \in Ranks |-> {}]
        /\ res = [r \in Ranks |-> {}] /\ phase = "work"
Image(o, s) == IF o \in zero THEN {} ELSE {<<o, s>>}
\* application through the memo of this operator: entry computed once, reused later
Use(r, o, i) == LET new == {<<s, Image(o, s)>> : s \in {x \in content[i] : ~\E m \in memo[r][o] : m[1] = x}}
                    all == memo[r][o] \cup new
                IN  [memo |-> all, out |-> UNION {m[2] : m \in {n \in all : n[1] \in content[i]}}]
\* outer loop over states (own) or operators (all)
StateOf(p) == IF mode = "own" THEN p[1] ELSE p[2]
OpOf(p) == IF mode = "own" THEN p[2] ELSE p[1]
Last(p) == p[1] > (IF mode = "own" THEN NStates ELSE NOps)
Succ(p) == IF p[2] < (IF mode = "own" THEN NOps ELSE NStates) THEN <<p[1], p[2] + 1>> ELSE <<p[1] + 1, 1>>
Own(r) == /\ phase = "work" /\ mode = "own" /\ ~Last(pos[r])
          /\ LET i == StateOf(pos[r]) o == OpOf(pos[r]) IN
             IF owner[i] # r THEN UNCHANGED <<memo, res>>
             ELSE LET x == Use(r, o, i) IN /\ memo' = [memo EXCEPT ![r][o] = x.memo]
                                            /\ res' = [res EXCEPT ![r] = @ \cup {<<i, o, x.out>>}]
          /\ pos' = [pos EXCEPT ![r] = Succ(@)]
          /\ UNCHANGED <<content, zero, mode, owner, store, phase>>
All == /\ phase = "work" /\ mode = "all" /\ ~Last(pos[1])
       /\ \E who \in Ranks :      \* who stores the columns of this entry's new product states
          LET i == StateOf(pos[1]) o == OpOf(pos[1])
              known == UNION {store[r] : r \in Ranks}
              new == Use(1, o, i).out \ known
          IN /\ memo' = [r \in Ranks |-> [memo[r] EXCEPT ![o] = Use(r, o, i).memo]]
             /\ store' = [store EXCEPT ![who] = @ \cup new]
             /\ res' = [r \in Ranks |-> res[r] \cup {<<i, o, Use(r, o, i).out>>}]
       /\ pos' = [r \in Ranks |-> Succ(pos[r])]
       /\ UNCHANGED <<content, zero, mode, owner, phase>>
Exchange == /\ phase = "work" /\ \A r \in Ranks : Last(pos[r])
            /\ phase' = "done"
            /\ res' = [r \in Ranks |-> IF mode = "own" THEN UNION {res[q] : q \in Ranks} ELSE res[r]]
            /\ UNCHANGED <<content, zero, mode, owner, pos, memo, store>>
Next == All \/ Exchange \/ \E r \in Ranks : Own(r)
Wanted == {<<i, o, UNION {Image(o, s) : s \in content[i]}>> : i \in St, o \in Ops}
Independent == /\ phase = "done" => \A r \in Ranks : res[r] = Wanted
               /\ \A r, q \in Ranks : r # q => store[r] \cap store[q] = {}
NoDeadlock == phase = "done" \/ ENABLED Next
=============================================================================

------------------------------ MODULE MatModel ------------------------------
(***************************************************************************)
(* Distributed assembly: the columns are divided over processes, every     *)
(* process computes its columns in any order and interleaving, then the    *)
(* parts are exchanged root by root.  At the end every process holds the   *)
(* whole matrix, for every division and every basis, closed or not.        *)
(***************************************************************************)
EXTENDS HMatrix
CONSTANTS N, P
VARIABLES op, basis, owner, part, todo, root, whole
vars == <<op, basis, owner, part, todo, root, whole>>
PS == SUBSET (0..(N - 1))
Ops == { << [t |-> << <<0, "c">>, <<1, "a">> >>, v |-> CxI], [t |-> << <<1, "c">>, <<0, "a">> >>, v |-> CxNeg(CxI)] >>,
         << [t |-> << <<0, "c">> >>, v |-> CxInt(2)], [t |-> << <<0, "c">>, <<0, "a">> >>, v |-> CxInt(3)] >> }
Ranks == 1..P
Init == /\ op \in Ops
        /\ \E k \in 1..3 : basis \in {b \in [1..k -> PS] : \A x, y \in 1..k : b[x] = b[y] => x = y}
        /\ owner \in [1..Len(basis) -> Ranks]
        /\ part = [r \in Ranks |-> [p \in {} |-> CxZero]] /\ todo = 1..Len(basis)
        /\ root = 1 /\ whole = [r \in Ranks |-> [p \in {} |-> CxZero]]
Col(j) == LET c == ApplyOp(op, (basis[j] :> CxOne)) IN
          [q \in {<<x - 1, j - 1>> : x \in {y \in 1..Len(basis) : basis[y] \in DOMAIN c}} |-> c[basis[q[1] + 1]]]
Work(r) == \E j \in todo : owner[j] = r /\ part' = [part EXCEPT ![r] = MAdd(@, Col(j))] /\ todo' = todo \ {j}
                          /\ UNCHANGED <<op, basis, owner, root, whole>>
Exchange == /\ todo = {} /\ root <= P
            /\ whole' = [r \in Ranks |-> MAdd(whole[r], part[root])] /\ root' = root + 1
            /\ UNCHANGED <<op, basis, owner, part, todo>>
Next == Exchange \/ \E r \in Ranks : Work(r)
Complete == root > P => \A r \in Ranks : MClose(whole[r], MatrixOf(op, <<>>, basis), FxZero)
=============================================================================

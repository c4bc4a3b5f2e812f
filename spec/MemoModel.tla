------------------------------ MODULE MemoModel -----------------------------
(***************************************************************************)
(* Operator application with a memo: the memo is a partial function from   *)
(* product states to the operator's action on them.  Every call may take   *)
(* each column from the memo or compute and store it.  For every history   *)
(* of calls the result is that of the application without a memo.          *)
(***************************************************************************)
EXTENDS Fock
CONSTANTS N, MaxCalls
VARIABLES op, restr, memo, calls, out, psi
vars == <<op, restr, memo, calls, out, psi>>
PS == SUBSET (0..(N - 1))
Ops == { << [t |-> << <<0, "c">>, <<1, "a">> >>, v |-> CxOne], [t |-> << <<1, "c">>, <<0, "a">> >>, v |-> CxOne],
            [t |-> << <<0, "c">>, <<0, "a">> >>, v |-> CxInt(2)] >>,
         << [t |-> << <<0, "c">> >>, v |-> CxI], [t |-> << <<1, "a">> >>, v |-> CxOne] >>,
         << [t |-> << <<0, "c">> >>, v |-> CxOne], [t |-> << <<1, "c">>, <<0, "c">>, <<1, "a">> >>, v |-> CxOne] >> }
Restrs == { <<>>, <<[o |-> {0}, lo |-> 0, hi |-> 0]>>, <<[o |-> {0, 1}, lo |-> 1, hi |-> 1]>> }
Column(s) == ApplyOpR(op, (s :> CxOne), restr)
Init == op \in Ops /\ restr \in Restrs /\ memo = [s \in {} |-> Empty] /\ calls = 0 /\ out = Empty /\ psi = Empty
RECURSIVE SumCols(_, _, _, _)
SumCols(m, p, S, acc) == IF S = {} THEN acc
                         ELSE LET s == CHOOSE x \in S : TRUE
                              IN  SumCols(m, p, S \ {s}, AddStates(acc, m[s], p[s]))
Call(p) ==
  LET m == memo @@ [s \in (DOMAIN p) \ DOMAIN memo |-> Column(s)]
  IN  memo' = m /\ psi' = p /\ out' = SumCols(m, p, DOMAIN p, Empty) /\ calls' = calls + 1 /\ UNCHANGED <<op, restr>>
States == {[s \in S |-> IF 0 \in s THEN CxInt(-1) ELSE CxOne] : S \in SUBSET PS}
Next == calls < MaxCalls /\ \E p \in States : Call(p)
Transparent == LET w == ApplyOpR(op, psi, restr) IN
               \A s \in DOMAIN out \cup DOMAIN w : Amp(out, s) = Amp(w, s)
MemoRight == \A s \in DOMAIN memo : memo[s] = Column(s)
=============================================================================

------------------------------- MODULE OpModel ------------------------------
(***************************************************************************)
(* Operator application as a transition system: a machine that works       *)
(* through the (product state, term) pairs of op|psi> in any order, adding  *)
(* one contribution at a time.  Whatever the order, the final sum is the   *)
(* declared action; restrictions may be applied as contributions arrive.   *)
(* Amplitudes are small integers.                                          *)
(***************************************************************************)
EXTENDS Fock
CONSTANTS N
VARIABLES op, psi, restr, todo, acc
vars == <<op, psi, restr, todo, acc>>
Terms == { <<>>, << <<0, "c">> >>, << <<1, "a">> >>, << <<0, "c">>, <<1, "a">> >>, << <<1, "c">>, <<1, "a">> >>,
           << <<0, "c">>, <<0, "a">> >>, << <<0, "a">>, <<1, "c">> >>, << <<1, "c">>, <<0, "c">>, <<0, "a">>, <<1, "a">> >> }
PS == SUBSET (0..(N - 1))
Restrs == { <<>>, <<[o |-> {0}, lo |-> 0, hi |-> 0]>>, <<[o |-> 0..(N - 1), lo |-> 1, hi |-> N - 1]>>,
            <<[o |-> {0}, lo |-> 1, hi |-> 1], [o |-> {0, 1}, lo |-> 0, hi |-> 1]>> }
Init == /\ \E t1, t2 \in Terms : op = << [t |-> t1, v |-> CxOne], [t |-> t2, v |-> <<FxZero, FxInt(-2)>>] >>
        /\ \E S \in {x \in SUBSET PS : Cardinality(x) \in 1..2} : psi = [s \in S |-> IF 0 \in s THEN CxInt(3) ELSE <<FxOne, FxOne>>]
        /\ restr \in Restrs
        /\ todo = (DOMAIN psi) \X (1..Len(op)) /\ acc = Empty
Handle(s, k) ==
  LET r == ApplyTerm(op[k].t, s) IN
  /\ todo' = todo \ {<<s, k>>}
  /\ acc' = IF r[1] = 0 \/ ~Allowed(r[2], restr) THEN acc
            ELSE AddTo(acc, r[2], CxSigned(r[1], CxMul(psi[s], op[k].v)))
  /\ UNCHANGED <<op, psi, restr>>
Next == \E p \in todo : Handle(p[1], p[2])
Final == todo = {} => acc = ApplyOpR(op, psi, restr)
\* <phi|O psi> = conj(<psi|O^+ phi>) for every product state phi
Adjoint == todo = {} /\ restr = <<>> => \A p \in PS :
             Amp(ApplyOp(op, psi), p) = CxConj(Inner(psi, ApplyOp(DaggerOp(op), (p :> CxOne))))
Linear == todo = {} /\ restr = <<>> =>
             ApplyOp(op, ScaleState(psi, CxInt(2))) = ScaleState(ApplyOp(op, psi), CxInt(2))
=============================================================================

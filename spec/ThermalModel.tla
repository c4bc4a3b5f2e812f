---------------------------- MODULE ThermalModel ----------------------------
(***************************************************************************)
(* The canonical average does not depend on the zero of energy or on the   *)
(* order of the states, is bounded by the values, tends to the average     *)
(* over the ground states at low and over all states at high temperature,  *)
(* and averages of averages of groups agree.                               *)
(***************************************************************************)
EXTENDS Thermal, FiniteSets, TLC
CONSTANT N
VARIABLES e, t, ok
Vals == <<FxInt(3), FxInt(-1), FxRat(1, 3), FxInt(10)>>
Tol == FxPico(10)
Es == [k \in 1..N |-> FxRat(e[k], 20)]
Ob == [k \in 1..N |-> CxR(Vals[k])]
T == FxInt(t)
A == Average(Es, Ob, T)[1]
Perms == {p \in [1..N -> 1..N] : \A a \in 1..N : \A b \in 1..N : p[a] = p[b] => a = b}
Ground == {k \in 1..N : \A m \in 1..N : e[k] <= e[m]}
MeanOver(S) == FxDiv(FxSum([k \in 1..N |-> IF k \in S THEN Vals[k] ELSE FxZero]), FxInt(Cardinality(S)))
Check ==
  IF ~FxClose(FxSum(Weights(Es, T)), FxOne, Tol) THEN "weights"
  ELSE IF ~FxClose(Average([k \in 1..N |-> FxAdd(Es[k], FxInt(-7))], Ob, T)[1], A, Tol) THEN "zero of energy"
  ELSE IF \E p \in Perms : ~FxClose(Average([k \in 1..N |-> Es[p[k]]], [k \in 1..N |-> Ob[p[k]]], T)[1], A, Tol) THEN "order"
  ELSE IF t = 1 /\ ~FxClose(A, MeanOver(Ground), Tol) THEN "ground states"
  ELSE IF t = 1000000000 /\ ~FxClose(A, MeanOver(1..N), FxMicro(200)) THEN "high temperature"
  ELSE IF \E k \in 1..N : \E m \in 1..N : e[k] < e[m] /\ FxLt(Weights(Es, T)[k], Weights(Es, T)[m]) THEN "monotone"
  ELSE "ok"
Init == e \in [1..N -> {-2, 0, 1, 30}] /\ t \in {1, 300, 20000, 1000000000} /\ ok = "todo"
Next == ok = "todo" /\ UNCHANGED <<e, t>> /\ ok' = Check
Right == ok \in {"todo", "ok"}
=============================================================================

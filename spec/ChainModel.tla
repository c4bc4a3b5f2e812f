----------------------------- MODULE ChainModel -----------------------------
(***************************************************************************)
(* Why long chains are judged by a continued fraction: for one electron at  *)
(* the end of a chain the Krylov space of dimension k is the first k sites, *)
(* so the resolvent of the projected Hamiltonian is the continued fraction  *)
(* of their energies and hoppings.  Checked against projection by           *)
(* orthogonalisation and, with all sites, against the linear system.        *)
(***************************************************************************)
EXTENDS Resolvent
CONSTANT N
VARIABLES e, t, k
Hop == {CxOne, <<FxZero, FxRat(1, 2)>>, <<FxRat(-3, 5), FxRat(4, 5)>>, <<FxRat(1, 100), FxZero>>}
Z == <<FxRat(3, 10), FxRat(1, 4)>>
H == TLCEval([a \in 1..N |-> [b \in 1..N |-> IF a = b THEN CxInt(e[a]) ELSE IF b = a + 1 THEN t[a] ELSE IF a = b + 1 THEN CxConj(t[b]) ELSE CxZero]])
E1 == [a \in 1..N |-> IF a = 1 THEN CxOne ELSE CxZero]
Init == e \in [1..N -> {-1, 0}] /\ t \in [1..(N - 1) -> Hop] /\ k = 1
Next == k < N /\ k' = k + 1 /\ UNCHANGED <<e, t>>
Frac == ChainEl([a \in 1..N |-> FxInt(e[a])], t, k, Z)
Right == CxClose(Frac, KrylovEl(Projected(H, KrylovBasis(H, E1, k)), FxOne, Z), FxPico(1))
RightAll == k = N => CxClose(Frac, ResolventEl(H, E1, Z), FxPico(1))
=============================================================================

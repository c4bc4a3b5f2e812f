----------------------------- MODULE OverrideTest ---------------------------
\* Values of the operators that Java overrides, over a deterministic pool of arguments.  The
\* output must be the same with and without the overrides (tools/overrides.sh).
EXTENDS Fock, Inertia
P(k) == <<FxRat(((k * 7919) % 1013) - 500, 1 + ((k * 31) % 97)), FxRat(((k * 104729) % 997) - 480, 1 + ((k * 17) % 89))>>
\* orbitals below n, at least one
Occ(k, n) == {j \in 0..(n - 1) : ((k + 1) * (j + 3) * (j + 7)) % 5 < 2}
Act(k) == IF k % 2 = 0 THEN "c" ELSE "a"
Term(k, n) == [t |-> [j \in 1..(k % 5) |-> << ((k + 3) * (j + 1) * 7 + j) % n, Act((k * j + (k \div 3)) % 3)>>], v |-> P(k)]
Op(k, n) == [j \in 1..12 |-> Term(k * 13 + j, n)]
Psi(k, n) == [s \in {Occ(j, n) : j \in k..(k + 4)} |-> P(Cardinality(s) + k)]
Cancel(n) == << [t |-> << <<1, "c">>, <<2, "a">> >>, v |-> CxOne], [t |-> << <<1, "c">>, <<2, "a">> >>, v |-> CxNeg(CxOne)] >>
All == [n \in {3, 9, 70} |-> [k \in 1..6 |->
   [one |-> OpOnPS(Op(k, n), 1 + (k % 3), Occ(k, n), P(k + 5), Psi(k, n)), op |-> ApplyOp(Op(k, n), Psi(k, n)), none |-> ApplyOp(Op(k, n), Empty),
    zero |-> ApplyOp(Cancel(n), ({2} :> P(3))), inner |-> Inner(Psi(k, n), Psi(k + 1, n)), self |-> Inner(Psi(k, n), Psi(k, n)), empty |-> Inner(Empty, Psi(k, n)),
    sum |-> <<FxSum([j \in 1..k |-> P(j)[1]]), CxSum([j \in 1..k |-> P(j)]), FxSum(<<>>), CxSum(<<>>)>>,
    mul |-> {<<CxMul(P(j), P(k)), CxAdd(P(j), P(k))>> : j \in 1..20}]]]
\* Hermitian matrices: dense, small integers (exact zeros and ties), zero diagonal, singular
Herm(k, n) == [a \in 1..n |-> [b \in 1..n |-> LET v == P(k + a * b + a + b) IN IF a = b THEN CxR(v[1]) ELSE IF a < b THEN v ELSE CxConj(v)]]
Ints(k, n) == [a \in 1..n |-> [b \in 1..n |-> CxInt(((k * (a + b) + a * b) % 5) - 2)]]
NoDiag(k, n) == [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN CxZero ELSE IF a < b THEN P(k + a * b) ELSE CxConj(P(k + a * b))]]
Neg == [k \in 1..8 |-> [n \in {1, 2, 3, 5} |-> <<NegCount(Herm(k, n)), NegCount(Ints(k, n)), NegCount(NoDiag(k, n)), CountBelow(Herm(k, n), FxInt(2))>>]]
ASSUME PrintT(<<"NEG", Neg>>)
ASSUME PrintT(<<"OVERRIDE", All>>)
VARIABLE x
Init == x = 0
Next == x' = x
=============================================================================

---------------------------- MODULE InertiaModel ----------------------------
(***************************************************************************)
(* The count of negative eigenvalues agrees with Descartes' rule on the    *)
(* characteristic polynomial (all of whose roots are real), for every      *)
(* Hermitian 3x3 matrix with small entries.                                *)
(***************************************************************************)
EXTENDS Inertia
VARIABLES d, o, ok
Off == <<CxZero, CxOne, CxI, <<FxInt(-1), FxInt(2)>>>>
M == LET e == [k \in 1..3 |-> Off[o[k]]] IN
     << <<CxInt(d[1]), e[1], e[2]>>, <<CxConj(e[1]), CxInt(d[2]), e[3]>>, <<CxConj(e[2]), CxConj(e[3]), CxInt(d[3])>> >>
Min2x(a, b) == FxSub(FxMul(M[a][a][1], M[b][b][1]), CxAbs2(M[a][b]))
Tr == FxSum(<<M[1][1][1], M[2][2][1], M[3][3][1]>>)
C2 == FxSum(<<Min2x(1, 2), Min2x(1, 3), Min2x(2, 3)>>)
Det == LET t == CxMul(CxMul(M[1][2], M[2][3]), M[3][1])[1]
       IN  FxAdd(FxSub(FxSub(FxSub(FxMul(FxMul(M[1][1][1], M[2][2][1]), M[3][3][1]), FxMul(M[1][1][1], CxAbs2(M[2][3]))),
             FxMul(M[2][2][1], CxAbs2(M[1][3]))), FxMul(M[3][3][1], CxAbs2(M[1][2]))), FxAdd(t, t))
\* p(-x) up to sign: x^3 + Tr x^2 + C2 x + Det; its positive roots are minus the negative eigenvalues
Signs == SelectSeq(<<1, Tr[1], C2[1], Det[1]>>, LAMBDA x : x # 0)
Changes == Cardinality({k \in 1..(Len(Signs) - 1) : Signs[k] # Signs[k + 1]})
Init == d \in [1..3 -> {-1, 0, 2}] /\ o \in [1..3 -> 1..4] /\ ok = "todo"
Next == ok = "todo" /\ UNCHANGED <<d, o>> /\ ok' = (IF NegCount(M) = Changes THEN "ok" ELSE "wrong")
Right == ok # "wrong"
=============================================================================

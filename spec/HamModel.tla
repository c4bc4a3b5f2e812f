------------------------------ MODULE HamModel ------------------------------
(***************************************************************************)
(* The crystal-field Hamiltonian has cubic symmetry: it commutes with the  *)
(* rotations by 90 degrees about z and by 120 degrees about (111) - the    *)
(* latter is verified to turn Lx, Ly, Lz into each other -, is Hermitian,  *)
(* has the given levels, and couples only valence and conduction baths     *)
(* that are present.                                                       *)
(***************************************************************************)
EXTENDS Ham
VARIABLES q, ok, mats
Tol == FxPico(100)
I5 == (-2)..2
MM(A, B) == TLCEval([p \in I5 \X I5 |-> CxSum([k \in 1..5 |-> CxMul(A[<<p[1], k - 3>>], B[<<k - 3, p[2]>>])])])
Adj(A) == TLCEval([p \in I5 \X I5 |-> CxConj(A[<<p[2], p[1]>>])])
Eq(A, B) == \A p \in I5 \X I5 : CxClose(A[p], B[p], Tol)
Dense(f) == TLCEval([p \in I5 \X I5 |-> f[p]])
\* matrices in the basis m
LzM == Dense([p \in I5 \X I5 |-> IF p[1] = p[2] THEN CxInt(p[1]) ELSE CxZero])
LpM == Dense([p \in I5 \X I5 |-> IF p[1] = p[2] + 1 THEN CxR(LadderUp(2, p[2])) ELSE CxZero])
LmM == Adj(LpM)
LxM == Dense([p \in I5 \X I5 |-> CxScaleFx(CxAdd(LpM[p], LmM[p]), FxHalf)])
LyM == Dense([p \in I5 \X I5 |-> CxMul(CxSub(LpM[p], LmM[p]), <<FxZero, FxNeg(FxHalf)>>)])
\* cubic harmonic c -> sum over d of RC[d][c]
S3 == FxMul(FxHalf, FxSqrt(FxInt(3)))
H == FxNeg(FxHalf)
RC == << <<H, FxNeg(S3), FxZero, FxZero, FxZero>>, <<S3, H, FxZero, FxZero, FxZero>>,
         <<FxZero, FxZero, FxZero, FxZero, FxOne>>, <<FxZero, FxZero, FxOne, FxZero, FxZero>>, <<FxZero, FxZero, FxZero, FxOne, FxZero>> >>
Cf(c, m) == LET f == CubicList(2)[c] IN IF m \in DOMAIN f THEN f[m] ELSE CxZero
C3 == Dense([p \in I5 \X I5 |-> CxSum([k \in 1..25 |-> LET d == ((k - 1) \div 5) + 1 c == ((k - 1) % 5) + 1
                                        IN  CxScaleFx(CxMul(Cf(d, p[1]), CxConj(Cf(c, p[2]))), RC[d][c])])])
C4 == Dense([p \in I5 \X I5 |-> IF p[1] # p[2] THEN CxZero ELSE LET n == (p[1] + 8) % 4 IN
        CASE n = 0 -> CxOne [] n = 1 -> CxI [] n = 2 -> CxNeg(CxOne) [] OTHER -> CxNeg(CxI)])
Turn(R, A) == MM(R, MM(A, Adj(R)))
Rotation(m) ==
  \/ Eq(Turn(m.c3, m.x), m.y) /\ Eq(Turn(m.c3, m.y), m.z) /\ Eq(Turn(m.c3, m.z), m.x)
  \/ Eq(Turn(m.c3, m.y), m.x) /\ Eq(Turn(m.c3, m.z), m.y) /\ Eq(Turn(m.c3, m.x), m.z)
Cubical(m, A) == Eq(MM(A, m.c3), MM(m.c3, A)) /\ Eq(MM(A, m.c4), MM(m.c4, A)) /\ Eq(A, Adj(A))
\* (A - a)(A - b) = 0 and trace = 2 a + 3 b
Levels(A, a, b) ==
  LET Sh(x) == Dense([p \in I5 \X I5 |-> IF p[1] = p[2] THEN CxSub(A[p], CxR(x)) ELSE A[p]])
  IN  /\ Eq(MM(Sh(a), Sh(b)), Dense([p \in I5 \X I5 |-> CxZero]))
      /\ CxClose(CxSum([k \in 1..5 |-> A[<<k - 3, k - 3>>]]), CxR(FxAdd(FxScale(a, 2), FxScale(b, 3))), Tol)
HermM(f) == \A p \in DOMAIN f : <<p[2], p[1]>> \in DOMAIN f /\ CxClose(f[<<p[2], p[1]>>], CxConj(f[p]), Tol)
Shells == <<1, 2>>
P(x) == CFParams([y \in {"e_imp", "v_con_eg", "e_val_t2g"} |-> FxRat(x, 3)])
Whole(x, con) ==
  LET nb == <<0, IF con THEN 20 ELSE 10>>
      f == CFMatrix(Shells, nb, 10, P(x))
  IN  /\ HermM(f) /\ \A p \in DOMAIN f : p[1] < NOrbs(Shells, nb) /\ p[2] < NOrbs(Shells, nb) /\ p[1] >= 6
      \* valence and conduction baths are not coupled directly; spin is conserved
      /\ \A p \in DOMAIN f : ~(p[1] \in 16..25 /\ p[2] >= 26)
      /\ \A p \in DOMAIN f : LET sp(i) == IF i < 16 THEN i < 11 ELSE ((i - 16) % 10) < 5 IN sp(p[1]) = sp(p[2])
Init == /\ q \in [a : {-3, 5}, b : {-2, 0, 4}, con : {TRUE, FALSE}] /\ ok = "todo"
        /\ mats = [c3 |-> C3, c4 |-> C4, x |-> LxM, y |-> LyM, z |-> LzM]
Next == /\ ok = "todo" /\ q' = q /\ mats' = mats
        /\ ok' = LET A == CubTab(FxRat(q.a, 7), FxRat(q.b, 3)) IN
             IF q.a = 5 /\ q.con /\ ~Rotation(mats) THEN "rotation" ELSE IF ~Cubical(mats, A) THEN "symmetry"
             ELSE IF ~Levels(A, FxRat(q.a, 7), FxRat(q.b, 3)) THEN "levels" ELSE IF ~Whole(q.a, q.con) THEN "whole" ELSE "ok"
Right == ok \in {"todo", "ok"}
=============================================================================

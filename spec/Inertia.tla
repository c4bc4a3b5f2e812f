------------------------------- MODULE Inertia ------------------------------
(***************************************************************************)
(* Number of negative eigenvalues of a Hermitian matrix, by symmetric      *)
(* elimination with 1x1 and 2x2 pivots (Sylvester's law of inertia).       *)
(***************************************************************************)
EXTENDS Resolvent
BigDiag(A, S) == CHOOSE k \in S : \A q \in S : FxLe(BAbs(A[q][q][1]), BAbs(A[k][k][1]))
Offs(S) == {p \in S \X S : p[1] < p[2]}
BigOff(A, S) == CHOOSE p \in Offs(S) : \A q \in Offs(S) : FxLe(CxAbs2(A[q[1]][q[2]]), CxAbs2(A[p[1]][p[2]]))
Vanishing == FxMul(FxPico(1), FxPico(1))                   \* weight of a zero pivot
Elim1(A, S, k) == LET inv == FxDiv(FxOne, A[k][k][1]) T == S \ {k} IN
  TLCEval([a \in T |-> LET f == CxScaleFx(A[a][k], inv) IN
     TLCEval([b \in T |-> IF CxIsZero(f) \/ CxIsZero(A[k][b]) THEN A[a][b] ELSE CxSub(A[a][b], CxMul(f, A[k][b]))])])
Elim2(A, S, r, s) ==
  LET x == A[r][r][1] y == A[s][s][1] b == A[r][s]
      det == FxSub(FxMul(x, y), CxAbs2(b))
      T == S \ {r, s}
  IN  TLCEval([a \in T |->
        \* row (A[a][r], A[a][s]) times the inverse of [[x, b], [b*, y]]
        LET u == CxScaleFx(CxSub(CxScaleFx(A[a][r], y), CxMul(A[a][s], CxConj(b))), FxDiv(FxOne, det))
            v == CxScaleFx(CxSub(CxScaleFx(A[a][s], x), CxMul(A[a][r], b)), FxDiv(FxOne, det))
        IN  TLCEval([c \in T |-> CxSub(A[a][c], CxAdd(CxMul(u, A[r][c]), CxMul(v, A[s][c])))])])
RECURSIVE NegR(_, _, _)
NegR(A, S, n) ==
  IF S = {} THEN n
  ELSE LET k == BigDiag(A, S)
           d2 == CxAbs2(A[k][k])
           p == BigOff(A, S)
           o2 == IF Cardinality(S) = 1 THEN FxZero ELSE CxAbs2(A[p[1]][p[2]])
       IN  IF FxLe(d2, Vanishing) /\ FxLe(o2, Vanishing) THEN n
           ELSE IF FxLe(FxMul(FxRat(41, 100), o2), d2) THEN NegR(Elim1(A, S, k), S \ {k}, n + (IF A[k][k][1][1] < 0 THEN 1 ELSE 0))
           ELSE NegR(Elim2(A, S, p[1], p[2]), S \ {p[1], p[2]}, n + 1)
NegCount(A) == NegR(A, 1..Len(A), 0)
Shifted(H, x) == TLCEval([a \in 1..Len(H) |-> [b \in 1..Len(H) |-> IF a = b THEN CxSub(H[a][b], CxR(x)) ELSE H[a][b]]])
\* eigenvalues of H below x
CountBelow(H, x) == NegCount(Shifted(H, x))
=============================================================================

------------------------------ MODULE Resolvent -----------------------------
(***************************************************************************)
(* Resolvents <u|(z - H)^-1|v> in the active space of a state, by solving  *)
(* the linear system, and in its Krylov spaces, by projecting H on the     *)
(* orthonormalised vectors v, Hv, H^2 v, ...  (20 decimals).               *)
(***************************************************************************)
EXTENDS HMatrix

\* ---- linear systems: rows of an augmented matrix, Gauss-Jordan with pivoting
Pivot(rows, c, n) == CHOOSE p \in c..n : \A q \in c..n : FxLe(CxAbs2(rows[q][c]), CxAbs2(rows[p][c]))
ElimStep(rows, c, n, m) ==
  LET p == Pivot(rows, c, n)
      inv == TLCEval(CxInv(rows[p][c]))
      nr == TLCEval([j \in 1..m |-> IF j < c THEN CxZero ELSE CxMul(rows[p][j], inv)])
  IN  TLCEval([q \in 1..n |->
        IF q = c THEN nr
        ELSE LET src == IF q = p THEN rows[c] ELSE rows[q] f == src[c]
             IN  IF CxIsZero(f) THEN src
                 ELSE TLCEval([j \in 1..m |-> IF j < c THEN src[j]
                                              ELSE IF CxIsZero(nr[j]) THEN src[j] ELSE CxSub(src[j], CxMul(f, nr[j]))])])
RECURSIVE Elim(_, _, _, _)
Elim(rows, c, n, m) == IF c > n THEN rows ELSE Elim(ElimStep(rows, c, n, m), c + 1, n, m)
\* x with A x = b
Solve(A, b) == LET n == Len(A)
                   r == Elim(TLCEval([q \in 1..n |-> Append(A[q], b[q])]), 1, n, n + 1)
               IN  TLCEval([q \in 1..n |-> r[q][n + 1]])

\* ---- dense matrices and vectors
VDot(u, v) == CxSum([k \in 1..Len(u) |-> IF CxIsZero(u[k]) \/ CxIsZero(v[k]) THEN CxZero ELSE CxMul(CxConj(u[k]), v[k])])
VNorm2(v) == VDot(v, v)[1]
VAxpy(v, a, u) == TLCEval([k \in 1..Len(v) |-> IF CxIsZero(u[k]) THEN v[k] ELSE CxAdd(v[k], CxMul(a, u[k]))])
VScale(v, a) == TLCEval([k \in 1..Len(v) |-> CxMul(a, v[k])])
MVec(A, v) == TLCEval([q \in 1..Len(A) |-> CxSum([k \in 1..Len(v) |-> IF CxIsZero(A[q][k]) \/ CxIsZero(v[k]) THEN CxZero ELSE CxMul(A[q][k], v[k])])])
DenseOf(f, n) == TLCEval([a \in 1..n |-> [b \in 1..n |-> MAt(f, a - 1, b - 1)]])
ZMinus(H, z) == TLCEval([a \in 1..Len(H) |-> [b \in 1..Len(H) |-> IF a = b THEN CxSub(z, H[a][b]) ELSE CxNeg(H[a][b])]])

\* ---- the active space of a state
RECURSIVE SeqOfSet(_, _)
SeqOfSet(S, acc) == IF S = {} THEN acc ELSE LET s == CHOOSE e \in S : TRUE IN SeqOfSet(S \ {s}, Append(acc, s))
ActiveBasis(op, restr, S) == TLCEval(SeqOfSet(Closure(op, restr, S), <<>>))
VecOf(psi, basis) == TLCEval([k \in 1..Len(basis) |-> Amp(psi, basis[k])])
StateOf(v, basis) == TLCEval([s \in {basis[k] : k \in {m \in 1..Len(basis) : ~CxIsZero(v[m])}} |->
                       v[CHOOSE k \in 1..Len(basis) : basis[k] = s]])

\* exact resolvent element
ResolventEl(H, v, z) == VDot(v, Solve(ZMinus(H, z), v))

\* ---- Krylov spaces
\* orthonormal basis of span(v, Hv, ..., H^(k-1) v); stops when it is exhausted
Exhausted == FxMul(FxNano(10), FxNano(10))      \* weight of a vanishing residual
RECURSIVE Ortho(_, _, _)
Ortho(w, Q, j) == IF j > Len(Q) THEN w ELSE Ortho(VAxpy(w, CxNeg(VDot(Q[j], w)), Q[j]), Q, j + 1)
RECURSIVE KrylovQ(_, _, _)
KrylovQ(H, Q, k) ==
  IF Len(Q) >= k THEN Q
  ELSE LET w == Ortho(Ortho(MVec(H, Q[Len(Q)]), Q, 1), Q, 1)
           n2 == TLCEval(VNorm2(w))
       IN  IF FxLe(n2, Exhausted) THEN Q
           ELSE KrylovQ(H, Append(Q, VScale(w, CxR(FxDiv(FxOne, FxSqrt(n2))))), k)
\* v normalised
KrylovBasis(H, v, k) == KrylovQ(H, <<VScale(v, CxR(FxDiv(FxOne, FxSqrt(VNorm2(v)))))>>, k)
Projected(H, Q) == LET HQ == TLCEval([b \in 1..Len(Q) |-> MVec(H, Q[b])])
                   IN  TLCEval([a \in 1..Len(Q) |-> [b \in 1..Len(Q) |-> VDot(Q[a], HQ[b])]])
\* resolvent of the projected Hamiltonian, for v of weight n2
KrylovEl(T, n2, z) ==
  LET e1 == [k \in 1..Len(T) |-> IF k = 1 THEN CxOne ELSE CxZero]
  IN  CxScaleFx(Solve(ZMinus(T, z), e1)[1], n2)
\* one electron at the end of a chain with energies e and hoppings t: the first k sites are the Krylov space
RECURSIVE ChainCF(_, _, _, _, _)
ChainCF(e, t, j, k, z) ==
  LET d == CxSub(z, CxR(e[j])) IN
  IF j = k THEN CxInv(d)
  ELSE LET x == TLCEval(ChainCF(e, t, j + 1, k, z)) IN CxInv(CxSub(d, CxScaleFx(x, CxAbs2(t[j]))))
ChainEl(e, t, k, z) == ChainCF(e, t, 1, IF k < Len(e) THEN k ELSE Len(e), z)
=============================================================================

------------------------------- MODULE HMatrix ------------------------------
\* The matrix of an operator in an ordered basis of product states.
EXTENDS Fock, MatFx
\* sparse: <<i, j>> |-> amplitude of b_i in O b_j (zero-based indices), only non-zero amplitudes
MatrixOf(op, restr, basis) ==
  LET n == Len(basis)
      col == TLCEval([j \in 1..n |-> ApplyOpR(op, (basis[j] :> CxOne), restr)])
      ix == TLCEval([s \in SetOf(basis) |-> CHOOSE k \in 1..n : basis[k] = s])
      dom == UNION { { <<ix[s] - 1, j - 1>> : s \in {x \in DOMAIN col[j] \cap DOMAIN ix : ~CxIsZero(col[j][x])} } : j \in 1..n }
  IN  TLCEval([q \in dom |-> col[q[2] + 1][basis[q[1] + 1]]])
HermitianM(f, tol) == \A p \in DOMAIN f : CxClose(f[p], CxConj(MAt(f, p[2], p[1])), tol)
OpHermitian(op, S) ==     \* on the space spanned by S
  \A s \in S : LET x == ApplyOp(op, (s :> CxOne)) y == ApplyOp(DaggerOp(op), (s :> CxOne))
               IN  StateClose(x, y, FxPico(1))
=============================================================================

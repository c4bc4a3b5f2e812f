---------------------------- MODULE LanczosModel ----------------------------
(***************************************************************************)
(* The three-term recurrence as a state machine, exact rational arithmetic, *)
(* for every symmetric integer matrix and start vector of a small box: the  *)
(* continued fraction of k steps is the resolvent of H projected on the     *)
(* Krylov space, it is the exact resolvent once the space is exhausted, and *)
(* going on after exhaustion with a zero vector changes nothing.            *)
(***************************************************************************)
EXTENDS Fx, FiniteSets, TLC
CONSTANTS N, Lo, Hi   \* matrix elements from -Lo to Hi
Zs == {N * Hi + N * Lo + 1, -(N * Hi + N * Lo + 3)}    \* off the spectrum
Ix == 1..N
VARIABLES H, v, u, uold, al, be
vars == <<H, v, u, uold, al, be>>
RECURSIVE RSumTo(_, _)
RSumTo(f, n) == IF n = 0 THEN RZero ELSE RAdd(RSumTo(f, n - 1), f[n])
RDot(a, b) == RSumTo([k \in Ix |-> RMul(a[k], b[k])], N)
RHv(a) == TLCEval([p \in Ix |-> RSumTo([q \in Ix |-> RMul(RInt(H[p][q]), a[q])], N)])
RV == [k \in Ix |-> RInt(v[k])]
ZeroV == [k \in Ix |-> RZero]
Init == /\ H \in {M \in [Ix -> [Ix -> (-Lo)..Hi]] : \A p, q \in Ix : M[p][q] = M[q][p]}
        /\ v \in {x \in [Ix -> -1..1] : \E k \in Ix : x[k] = 1 /\ \A q \in 1..(k - 1) : x[q] = 0}
        /\ u = RV /\ uold = ZeroV /\ al = <<>> /\ be = <<>>
IsZero(a) == \A k \in Ix : a[k] = RZero
Steps == N + 1
Next ==
  /\ Len(al) < Steps
  /\ LET n2 == RDot(u, u)
         hu == RHv(u)
         a == IF IsZero(u) THEN RZero ELSE RDiv(RDot(u, hu), n2)
         b == IF Len(be) = 0 THEN RZero ELSE be[Len(be)]
         w == [k \in Ix |-> RSub(RSub(hu[k], RMul(a, u[k])), RMul(b, uold[k]))]
     IN  /\ al' = Append(al, a)
         /\ be' = Append(be, IF IsZero(u) \/ IsZero(w) THEN RZero ELSE RDiv(RDot(w, w), n2))
         /\ uold' = u /\ u' = w
  /\ UNCHANGED <<H, v>>
RECURSIVE CF(_, _)
CF(k, z) == LET d == RSub(RInt(z), al[k])
                t == IF k = Len(al) THEN RZero ELSE CF(k + 1, z)
            IN  RDiv(ROne, RSub(d, RMul(be[k], t)))
\* determinants of integer matrices
RECURSIVE Det(_, _)
Det(M, n) ==
  IF n = 1 THEN M[1][1]
  ELSE LET minor(c) == TLCEval([p \in 1..(n - 1) |-> [q \in 1..(n - 1) |-> M[p + 1][IF q < c THEN q ELSE q + 1]]])
           t(c) == LET x == BMul(M[1][c], Det(minor(c), n - 1)) IN IF c % 2 = 1 THEN x ELSE BNeg(x)
       IN  FxSum([c \in 1..n |-> t(c)])
\* b^T A^-1 b = 1 - det(A - b b^T) / det(A)
QuadV(A, b, n) == RSub(ROne, RNorm(Det(TLCEval([p \in 1..n |-> [q \in 1..n |-> BSub(A[p][q], BMul(b[p], b[q]))]]), n), Det(A, n)))
Quad(A, b, n) == QuadV(TLCEval(A), TLCEval(b), n)
Exact(z) == Quad([p \in Ix |-> [q \in Ix |-> BInt((IF p = q THEN z ELSE 0) - H[p][q])]], [k \in Ix |-> BInt(v[k])], N)
\* moments <v|H^j|v>
RECURSIVE Mom(_, _, _)
Mom(w, j, acc) == IF j = 0 THEN acc ELSE Mom(RHv(w), j - 1, Append(acc, RDot(RV, w)[1]))
Moments(n) == Mom(RV, n, <<>>)
Galerkin(k, z) == LET mu == TLCEval(Moments(2 * k)) Mu(j) == mu[j + 1] IN Quad([p \in 1..k |-> [q \in 1..k |-> BSub(BMul(BInt(z), Mu(p + q - 2)), Mu(p + q - 1))]], [p \in 1..k |-> Mu(p - 1)], k)
\* dimension of the Krylov space reached so far
Dim == Cardinality({k \in 1..Len(al) : \A q \in 1..(k - 1) : be[q] # RZero})
V2 == Moments(1)[1]
Value(z) == RMul(<<V2, BOne>>, CF(1, z))
ProjectedOK == Len(al) > 0 => \A z \in Zs : Value(z) = Galerkin(Dim, z)
ExactOK == (Len(al) > 0 /\ (Dim < Len(al) \/ Len(al) >= N)) => \A z \in Zs : Value(z) = Exact(z)
=============================================================================

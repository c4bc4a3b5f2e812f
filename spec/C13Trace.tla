------------------------------ MODULE C13Trace ------------------------------
EXTENDS Resolvent, Dist, TraceData
VARIABLES i, verdict
Tol == FxNano(200)
Z(w, delta, e) == <<FxAdd(w, e), delta>>
ZeroG(g, nw) == Len(g) = nw /\ \A k \in 1..nw : CxClose(g[k], CxZero, FxPico(1))
\* one Green's function of a history
One(r, p, g) ==
  LET psi == DecState(r.psis[p]) nw == Len(r.w) IN
  IF DOMAIN psi = {} THEN IF ZeroG(g, nw) THEN "ok" ELSE "empty-state-not-zero"
  ELSE LET restr == DecRestr(r.restr)
           op == DecOp(r.op)
           basis == ActiveBasis(op, restr, DOMAIN psi)
           H == DenseOf(MatrixOf(op, restr, basis), Len(basis))
           v == VecOf(psi, basis)
           Q == KrylovBasis(H, v, r.k)
           T == Projected(H, Q)
           n2 == VNorm2(v)
           full == r.k >= Len(basis)
       IN Clauses(<<
            <<"length", Len(g) = nw>>,
            <<"projected-resolvent", \A k \in 1..nw : CxClose(g[k], KrylovEl(T, n2, Z(r.w[k], r.delta, r.e)), Tol)>>,
            <<"exact-resolvent", (full \/ Len(Q) < r.k) => \A k \in 1..nw : CxClose(g[k], ResolventEl(H, v, Z(r.w[k], r.delta, r.e)), Tol)>> >>)
RECURSIVE All(_, _, _)
All(r, gs, p) == IF p > Len(r.psis) THEN "ok"
                 ELSE LET x == One(r, p, gs[p]) IN IF x = "ok" THEN All(r, gs, p + 1) ELSE x
\* the continued fraction of recorded tridiagonal elements
RECURSIVE CF(_, _, _, _)
CF(al, be, k, z) == LET d == CxSub(z, CxR(al[k])) IN
                    IF k = Len(al) THEN CxInv(d)
                    ELSE LET t == TLCEval(CF(al, be, k + 1, z)) IN CxInv(CxSub(d, CxScaleFx(t, FxMul(be[k], be[k]))))
Min(a, b) == IF a < b THEN a ELSE b
Tri(r) ==
  LET n == Len(r.h)
      t == r.res[1].ok
      v == r.psi
      Q == KrylovBasis(r.h, v, r.k)
      T == Projected(r.h, Q)
  IN Clauses(<<
       <<"length", Len(t.alpha) = Min(r.k, n) /\ Len(t.beta) = Len(t.alpha) - 1>>,
       <<"finite", (\A k \in 1..Len(t.alpha) : FxIsReal(t.alpha[k])) /\ (\A k \in 1..Len(t.beta) : FxIsReal(t.beta[k]))>>,
       <<"tridiagonal-elements", \A k \in 1..Len(r.z) : CxClose(CF(t.alpha, t.beta, 1, r.z[k]), KrylovEl(T, FxOne, r.z[k]), Tol)>> >>)
\* a history of Green's functions of one electron starting at either end of a long chain
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Chain(r) ==
  LET want(p, x) == IF r.ends[p] = 0 THEN ChainEl(r.eps, r.hop, r.k, Z(r.w[x], r.delta, r.e))
                                     ELSE ChainEl(Rev(r.eps), Rev(r.hop), r.k, Z(r.w[x], r.delta, r.e))
  IN Clauses(<<
       <<"length", \A p \in 1..Len(r.ends) : Len(r.res[1].ok.g[p]) = Len(r.w)>>,
       <<"resolvent-of-a-long-chain", \A p \in 1..Len(r.ends) : \A x \in 1..Len(r.w) : CxClose(r.res[1].ok.g[p][x], want(p, x), FxMicro(10))>> >>)
J(r) ==
  IF r.status # "ok" THEN "communication"
  ELSE IF ~AllRan(r) THEN "raised"
  ELSE CASE r.kind = "green" -> All(r, r.res[1].ok.g, 1)
    [] r.kind = "chain" -> Chain(r)
    [] r.kind = "krylov" -> Tri(r)
    [] OTHER -> "unknown-record"
INSTANCE TraceBase WITH Judge <- J
=============================================================================

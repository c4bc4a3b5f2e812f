------------------------------ MODULE C17Trace ------------------------------
EXTENDS Fock, TraceData
VARIABLES i, verdict
Tol == FxPico(1)
\* two operators act alike on every product state of n orbitals
SameAction(n, A, B, tol) ==
  \A s \in SUBSET (0..(n - 1)) : StateClose(ApplyOp(A, (s :> CxOne)), ApplyOp(B, (s :> CxOne)), tol)
RECURSIVE Flat(_, _)
Flat(ops, k) == IF k > Len(ops) THEN <<>> ELSE DecOp(ops[k]) \o Flat(ops, k + 1)
Cplx(z) == <<z[1], z[2]>>
J(r) ==
  CASE r.kind = "dagger" ->
         LET op == DecOp(r.op) d == DecOp(r.out) IN
         Clauses(<< <<"adjoint", SameAction(r.n, d, DaggerOp(op), Tol)>>,
                    <<"involution", SameAction(r.n, DecOp(r.twice), op, Tol)>>,
                    <<"antilinear", SameAction(r.n, DecOp(r.scaled),
                        [k \in 1..Len(op) |-> [t |-> DaggerTerm(op[k].t), v |-> CxMul(CxConj(Cplx(r.z)), CxConj(op[k].v))]], FxPico(10))>>,
                    <<"argument-changed", r.same>> >>)
    [] r.kind = "sandwich" ->     \* the inner products recorded from the real code
         Clauses(<< <<"adjoint-relation", CxClose(Cplx(r.lhs), CxConj(Cplx(r.rhs)), FxPico(100))>>,
                    <<"value", CxClose(Cplx(r.lhs), Inner(DecState(r.a), ApplyOp(DecOp(r.op), DecState(r.b))), FxPico(100))>> >>)
    [] r.kind = "sum" ->
         Clauses(<< <<"sum-of-operators", SameAction(r.n, DecOp(r.out), Flat(r.ops, 1), FxPico(10))>>,
                    <<"argument-changed", r.same>> >>)
    [] r.kind = "states" ->
         LET a == DecState(r.a)  b == DecState(r.b)  z == Cplx(r.z) IN
         Clauses(<< <<"inner", CxClose(Cplx(r.inner), Inner(a, b), FxPico(10))>>,
                    <<"inner-conjugate", CxClose(Cplx(r.innerba), CxConj(Inner(a, b)), FxPico(10))>>,
                    <<"norm2", FxClose(r.norm2, Norm2(a), FxPico(10))>>,
                    <<"add", StateClose(DecState(r.add), AddStates(a, b, CxOne), Tol)>>,
                    <<"add-scaled", StateClose(DecState(r.addz), AddStates(a, b, z), FxPico(10))>>,
                    <<"add-in-place", StateClose(DecState(r.addto), AddStates(a, b, CxOne), Tol)>>,
                    <<"add-in-place-scaled", StateClose(DecState(r.addtoz), AddStates(a, b, z), FxPico(10))>>,
                    <<"add-to-itself", StateClose(DecState(r.self), ScaleState(a, CxAdd(CxOne, z)), FxPico(10))>>,
                    <<"argument-changed", r.same>>,
                    <<"result-shares-argument", r.fresh>> >>)
    [] r.kind = "guard" ->
         Clauses(<< <<"hermiticity-guard", r.accepted = r.hermitian>> ,
                    <<"hermitian-by-spec", r.hermitian = SameAction(r.n, DecOp(r.op), DaggerOp(DecOp(r.op)), FxNano(10))>> >>)
    [] r.kind = "anyguard" ->     \* operators of two electrons too: clearly not Hermitian ones are refused
         LET op == DecOp(r.op) IN
         Clauses(<< <<"hermiticity-guard", r.accepted => SameAction(r.n, op, DaggerOp(op), FxNano(10))>> >>)
    [] OTHER -> "unknown-record"
INSTANCE TraceBase WITH Judge <- J
=============================================================================

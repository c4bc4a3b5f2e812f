------------------------------ MODULE C08Trace ------------------------------
EXTENDS HMatrix, Dist, TraceData
VARIABLES i, verdict
Seeds(r, k) == [m \in 1..Len(r.seeds[k]) |-> SetOf(r.seeds[k][m])]
Basis(b) == [m \in 1..Len(b) |-> SetOf(b[m])]
Tol == FxMicro(2)
\* k-th expansion of the recorded history
Call(r, k) ==
  LET op == DecOp(r.op)
      restr == DecRestr(r.restr)
      P == Len(r.res)
      c(p) == r.res[p].ok[k]
      b == Basis(c(1).basis)
      want == Closure(op, restr, SetOf(Seeds(r, k)))
      H == MatrixOf(op, restr, b)
      Owners(s) == {p \in 1..P : \E m \in 1..Len(c(p).store) : SetOf(c(p).store[m].s) = s}
      shape == <<Len(b), Len(b)>>
  IN  Clauses(<<
     <<"basis-differs-between-processes", \A p \in 1..P : c(p).basis = c(1).basis>>,
     <<"seeds-first-in-order", Len(b) >= Len(Seeds(r, k)) /\ \A m \in 1..Len(Seeds(r, k)) : b[m] = Seeds(r, k)[m]>>,
     <<"basis-not-the-serial-one", SetOf(b) = want /\ Len(b) = Cardinality(want)>>,
     <<"column-without-single-owner", \A s \in want : Cardinality(Owners(s)) = 1>>,
     <<"column-wrong", \A p \in 1..P : \A m \in 1..Len(c(p).store) :
          StateClose(DecState(c(p).store[m].v), ApplyOpR(op, (SetOf(c(p).store[m].s) :> CxOne), restr), Tol)>>,
     <<"index-wrong", \A p \in 1..P : c(p).sameindex /\ Len(c(p).index) = Len(b) /\
          \A m \in 1..Len(c(p).index) : b[c(p).index[m][2] + 1] = SetOf(c(p).index[m][1])>>,
     <<"local-parts-do-not-add-up", /\ \A p \in 1..P : c(p).local.shape = shape
                                    /\ MClose(MSum([p \in 1..P |-> MEntries(c(p).local)]), H, Tol)>>,
     <<"assembled-matrix", \A p \in 1..P : c(p).full.shape = shape /\ MClose(MEntries(c(p).full), H, Tol)>> >>)
RECURSIVE Calls(_, _)
Calls(r, k) == IF k > Len(r.seeds) THEN "ok"
               ELSE LET v == Call(r, k) IN IF v = "ok" THEN Calls(r, k + 1) ELSE v
J(r) ==
  IF r.status # "ok" THEN "communication"
  ELSE IF ~AllRan(r) THEN "rank-raised"
  ELSE CASE r.kind = "expand" -> Calls(r, 1)
    [] r.kind = "both" ->
       LET b == [m \in 1..Len(r.res[1].ok.index) |->
                   LET e == CHOOSE q \in 1..Len(r.res[1].ok.index) : r.res[1].ok.index[q][2] = m - 1
                   IN  SetOf(r.res[1].ok.index[e][1])]
           H == MatrixOf(DecOp(r.op), DecRestr(r.restr), b)
           P == Len(r.res)
       IN  Clauses(<<
         <<"basis-not-the-serial-one", SetOf(b) = Closure(DecOp(r.op), DecRestr(r.restr), SetOf(Seeds(r, 1)))>>,
         <<"index-differs-between-processes", \A p \in 1..P : SetOf(r.res[p].ok.index) = SetOf(r.res[1].ok.index)>>,
         <<"matrix", IF r.local THEN MClose(MSum([p \in 1..P |-> MEntries(r.res[p].ok.h)]), H, Tol)
                     ELSE \A p \in 1..P : MClose(MEntries(r.res[p].ok.h), H, Tol)>> >>)
    [] OTHER -> "unknown-record"
INSTANCE TraceBase WITH Judge <- J
=============================================================================

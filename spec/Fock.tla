-------------------------------- MODULE Fock --------------------------------
(***************************************************************************)
(* The fermionic Fock space the package computes in.  A product state is   *)
(* the set of occupied spin-orbitals (numbered from 0); |{a<b<c}> means    *)
(* c_a^+ c_b^+ c_c^+ |0>.  A many-body state is a function from a finite   *)
(* set of product states to complex amplitudes.  An operator is a sequence *)
(* of terms [t |-> <<step, ...>>, v |-> amplitude]; a step is              *)
(* <<orbital, "c">> or <<orbital, "a">> and the rightmost acts first.      *)
(***************************************************************************)
EXTENDS Fx, FiniteSets, TLC

SetOf(seq) == {seq[i] : i \in 1..Len(seq)}
Parity(n) == IF n % 2 = 0 THEN 1 ELSE -1
SignAt(i, s) == Parity(Cardinality({j \in s : j < i}))

\* one elementary step on a product state: <<sign, new state>>; sign 0 = blocked
Step(act, i, s) ==
  IF act = "c" THEN IF i \in s THEN <<0, s>> ELSE <<SignAt(i, s), s \cup {i}>>
               ELSE IF i \in s THEN <<SignAt(i, s), s \ {i}>> ELSE <<0, s>>

RECURSIVE TermFrom(_, _, _, _)
TermFrom(term, k, sign, s) ==
  IF k = 0 THEN <<sign, s>>
  ELSE LET r == Step(term[k][2], term[k][1], s)
       IN  IF r[1] = 0 THEN <<0, s>> ELSE TermFrom(term, k - 1, sign * r[1], r[2])
ApplyTerm(term, s) == TermFrom(term, Len(term), 1, s)

Empty == [s \in {} |-> CxZero]
AddTo(acc, s, v) == IF s \in DOMAIN acc THEN [acc EXCEPT ![s] = CxAdd(@, v)] ELSE acc @@ (s :> v)
CxSigned(sign, v) == IF sign = 1 THEN v ELSE CxNeg(v)

RECURSIVE OpOnPS(_, _, _, _, _)
OpOnPS(op, k, s, amp, acc) ==
  IF k > Len(op) THEN acc
  ELSE LET r == ApplyTerm(op[k].t, s)
       IN  OpOnPS(op, k + 1, s, amp,
             IF r[1] = 0 THEN acc ELSE AddTo(acc, r[2], CxSigned(r[1], CxMul(amp, op[k].v))))

RECURSIVE OpOnStates(_, _, _, _)
OpOnStates(op, S, psi, acc) ==
  IF S = {} THEN acc
  ELSE LET s == CHOOSE x \in S : TRUE
       IN  OpOnStates(op, S \ {s}, psi, OpOnPS(op, 1, s, psi[s], acc))
ApplyOp(op, psi) == OpOnStates(op, DOMAIN psi, psi, Empty)

\* occupation restrictions: sequence of [o |-> set, lo |-> n, hi |-> n]
Allowed(s, restr) == \A i \in 1..Len(restr) :
    LET n == Cardinality(s \cap restr[i].o) IN restr[i].lo <= n /\ n <= restr[i].hi
Project(psi, restr) == [s \in {x \in DOMAIN psi : Allowed(x, restr)} |-> psi[s]]
ApplyOpR(op, psi, restr) == Project(ApplyOp(op, psi), restr)

Amp(psi, s) == IF s \in DOMAIN psi THEN psi[s] ELSE CxZero
RECURSIVE InnerR(_, _, _, _)
InnerR(a, b, S, acc) ==
  IF S = {} THEN acc
  ELSE LET s == CHOOSE x \in S : TRUE
       IN  InnerR(a, b, S \ {s}, CxAdd(acc, CxMul(CxConj(a[s]), b[s])))
Inner(a, b) == InnerR(a, b, DOMAIN a \cap DOMAIN b, CxZero)
Norm2(a) == Inner(a, a)[1]
ScaleState(psi, c) == [s \in DOMAIN psi |-> CxMul(psi[s], c)]
AddStates(a, b, m) == [s \in DOMAIN a \cup DOMAIN b |-> CxAdd(Amp(a, s), CxMul(m, Amp(b, s)))]

DaggerTerm(t) == [k \in 1..Len(t) |-> LET e == t[Len(t) + 1 - k]
                                      IN  <<e[1], IF e[2] = "c" THEN "a" ELSE "c">>]
DaggerOp(op) == [k \in 1..Len(op) |-> [t |-> DaggerTerm(op[k].t), v |-> CxConj(op[k].v)]]

\* two states agree up to tol, and the first has no amplitude that should have been cut
StateClose(got, want, tol) ==
  \A s \in DOMAIN got \cup DOMAIN want : CxClose(Amp(got, s), Amp(want, s), tol)

\* the smallest set that contains the seeds and is closed under the operator; results with a
\* weight below 10^-12 do not count
RECURSIVE ClosureR(_, _, _, _)
ClosureR(op, restr, done, todo) ==
  IF todo = {} THEN done
  ELSE LET next == UNION { {s \in DOMAIN img : FxLe(FxPico(1), CxAbs2(img[s]))} :
                           img \in { ApplyOpR(op, (s :> CxOne), restr) : s \in todo } }
           d == done \cup todo
       IN  ClosureR(op, restr, d, next \ d)
Closure(op, restr, seeds) == ClosureR(op, restr, {}, seeds)

---------------------------------------------------------------------------
(* decoding of traces *)
DecState(js) == LET n == Len(js)
                    Rec(i) == SetOf(js[i].s)
                IN  [s \in {Rec(i) : i \in 1..n} |->
                      LET i == CHOOSE k \in 1..n : Rec(k) = s IN <<js[i].re, js[i].im>>]
DecOp(js) == [k \in 1..Len(js) |-> [t |-> js[k].t, v |-> <<js[k].re, js[k].im>>]]
DecRestr(js) == [k \in 1..Len(js) |-> [o |-> SetOf(js[k].o), lo |-> js[k].lo, hi |-> js[k].hi]]
=============================================================================

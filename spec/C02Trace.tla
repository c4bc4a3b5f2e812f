------------------------------ MODULE C02Trace ------------------------------
EXTENDS Fock, Repr, TraceData
VARIABLES i, verdict
\* walk the recorded history of one representation next to the specification
RECURSIVE Walk(_, _, _, _)
Walk(r, form, k, occ) ==
  IF k > Len(r.runs[form]) THEN "ok"
  ELSE LET c == r.runs[form][k]
           w == Step(c.act, c.i, occ)
       IN  IF c.sign # w[1] THEN "sign-" \o form
           ELSE IF w[1] # 0 /\ ~(c.type = form /\ c.val = Enc(form, r.n, w[2])) THEN "state-" \o form
           ELSE IF w[1] = 0 /\ form = "bitarray" /\ c.val # Enc(form, r.n, occ) THEN "changed-on-failure-" \o form
           ELSE IF ~c.same THEN "argument-changed-" \o form
           ELSE Walk(r, form, k + 1, IF w[1] = 0 THEN occ ELSE w[2])
RECURSIVE WalkAll(_, _)
WalkAll(r, S) == IF S = {} THEN "ok"
                 ELSE LET f == CHOOSE x \in S : TRUE
                          v == Walk(r, f, 1, SetOf(r.occ))
                      IN  IF v = "ok" THEN WalkAll(r, S \ {f}) ELSE v
J(r) ==
  CASE r.kind = "history" -> WalkAll(r, DOMAIN r.runs)
    [] r.kind = "superposition" ->
         Clauses(<< <<"action-on-superposition",
                      StateClose(DecState(r.out),
                                 ApplyOp(<<[t |-> << <<r.i, r.act>> >>, v |-> CxOne]>>, DecState(r.psi)), FxPico(1))>>,
                    <<"argument-changed", r.same>> >>)
    [] r.kind = "car" ->
         Clauses(<< <<"anticommutator-" \o r.acts[1] \o r.acts[2],
                      StateClose(DecState(r.out),
                                 IF r.acts[1] # r.acts[2] /\ r.i = r.j THEN DecState(r.psi) ELSE Empty,
                                 FxPico(1))>> >>)
    [] OTHER -> "unknown-record"
INSTANCE TraceBase WITH Judge <- J
=============================================================================

----------------------------- MODULE WindowModel ----------------------------
(***************************************************************************)
(* The energy window keeps a prefix of the sorted levels that contains the *)
(* lowest one and whole multiplets, grows with temperature and width, and  *)
(* what it drops weighs less than (number dropped) * exp(-cut) relative to *)
(* the lowest state.                                                       *)
(***************************************************************************)
EXTENDS Driver
VARIABLES s
E(q) == [k \in 1..Len(q.f) |-> FxMul(FxRat(q.f[k], 100), FxMul(FxInt(q.c), FxMul(KBFull, FxInt(300))))]
Init == /\ s \in [f : UNION {[1..n -> {0, 50, 99, 101, 300}] : n \in 1..4}, c : {1, 3}]
        /\ s.f[1] = 0 /\ \A k \in 1..(Len(s.f) - 1) : s.f[k] <= s.f[k + 1]
Next == FALSE /\ s' = s
W(T, c) == Window(E(s), FxInt(c), FxInt(T))
Right ==
  LET w == W(300, s.c) es == E(s) IN
  /\ 1 \in w /\ w = 1..Cardinality(w)
  /\ \A a, b \in 1..Len(es) : es[a] = es[b] => (a \in w <=> b \in w)
  /\ w \subseteq W(600, s.c) /\ w \subseteq W(300, s.c + 1)
  /\ \A k \in 1..Len(es) : (k \in w) = (s.f[k] < 100)
  /\ LET p == Weights(es, FxInt(300)) IN \A k \in (1..Len(es)) \ w : FxLe(p[k], FxMul(p[1], FxExpNeg(FxInt(s.c))))
=============================================================================

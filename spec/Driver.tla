------------------------------- MODULE Driver -------------------------------
(***************************************************************************)
(* The calculation driver: which eigenstates are used, which occupations   *)
(* are allowed in excited states, what is reported and what is stored.     *)
(***************************************************************************)
EXTENDS Cubic, Thermal
\* a shell: [l, nb, nv, dv, dc, tol, n0]
ShellLs(sh) == [k \in 1..Len(sh) |-> sh[k].l]
NBs(sh) == [k \in 1..Len(sh) |-> sh[k].nb]
RECURSIVE SumTo(_, _)
SumTo(q, k) == IF k = 0 THEN 0 ELSE q[k] + SumTo(q, k - 1)
NImpD(sh) == SumTo([k \in 1..Len(sh) |-> 2 * (2 * sh[k].l + 1)], Len(sh))
NAll(sh) == NImpD(sh) + SumTo(NBs(sh), Len(sh))
DPos(sh) == CHOOSE k \in 1..Len(sh) : sh[k].l = 2
BathD(sh, b) == NImpD(sh) + SumTo(NBs(sh), DPos(sh) - 1) + b
\* ---- window: the states less than cut * kT above the lowest
Inside(es, k, cut, T) == FxLt(FxSub(es[k], es[1]), FxMul(cut, FxMul(KBFull, T)))
Window(es, cut, T) == {k \in 1..Len(es) : Inside(es, k, cut, T)}
Margin(es, cut, T) == \* no level closer to the edge than this can be judged
  \A k \in 1..Len(es) : FxLt(FxNano(1), BAbs(FxSub(FxSub(es[k], es[1]), FxMul(cut, FxMul(KBFull, T)))))
\* ---- occupations allowed in excited states (d shell, valence and conduction baths)
Want(sh) == LET d == sh[DPos(sh)] IN
  << [o |-> {Ix(ShellLs(sh), <<2, s, m>>) : s \in {0, 1}, m \in (-2)..2}, lo |-> d.n0 - 1, hi |-> d.n0 + d.tol + 1],
     [o |-> {BathD(sh, b) : b \in 0..(d.nv - 1)}, lo |-> d.nv - d.dv, hi |-> d.nv],
     [o |-> {BathD(sh, b) : b \in d.nv..(d.nb - 1)}, lo |-> 0, hi |-> d.dc] >>
\* what a list of restrictions means: intervals of the groups, trivial ones left out
Meaning(rs) ==
  LET lo(k) == Max2(rs[k].lo, 0) hi(k) == Min2(rs[k].hi, Cardinality(rs[k].o))
      live == {k \in 1..Len(rs) : ~(lo(k) = 0 /\ hi(k) = Cardinality(rs[k].o))}
  IN  {<<rs[k].o, lo(k), hi(k)>> : k \in live}
\* ---- reported thermal expectation values: <<name, value>>; only states inside the window count
Reported(shells, es, psis, cut, T) ==
  LET q == SeqOf(Window(es, cut, T), <<>>)
      w == Weights([k \in 1..Len(q) |-> es[q[k]]], T)
      avg(f(_)) == FxSum([k \in 1..Len(q) |-> FxMul(w[k], f(q[k]))])
      cub(S, s) == avg(LAMBDA k : CubOcc(shells, S, s, psis[k])[1])
      D == {2}
  IN  << <<"E-E0", avg(LAMBDA k : FxSub(es[k], es[1]))>>, <<"N(3d)", avg(LAMBDA k : Expect(CountOp(shells, 2), psis[k])[1])>>,
         <<"N(egDn)", cub(EgOf, 0)>>, <<"N(egUp)", cub(EgOf, 1)>>, <<"N(t2gDn)", cub((1..5) \ EgOf, 0)>>, <<"N(t2gUp)", cub((1..5) \ EgOf, 1)>>,
         <<"Lz(3d)", avg(LAMBDA k : Expect(Lz(shells, D), psis[k])[1])>>, <<"Sz(3d)", avg(LAMBDA k : Expect(Sz(shells, D), psis[k])[1])>>,
         <<"L^2(3d)", avg(LAMBDA k : LSqr(shells, psis[k]))>>, <<"S^2(3d)", avg(LAMBDA k : SSqr(shells, psis[k]))>> >>
\* ---- stored spectra: states x transitions x mesh
MeanOver(es, T, S) == \* thermal average of a stored spectrum
  LET w == TLCEval(Weights(es, T)) IN
  TLCEval([t \in 1..Len(S[1]) |-> [x \in 1..Len(S[1][t]) |-> FxSum([k \in 1..Len(S) |-> FxMul(w[k], S[k][t][x])])]])
SumOver(A) == TLCEval([x \in 1..Len(A[1]) |-> FxSum([t \in 1..Len(A) |-> A[t][x]])])
=============================================================================

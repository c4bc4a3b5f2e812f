--------------------------------- MODULE Run --------------------------------
(***************************************************************************)
(* A complete calculation.  From the input parameters p the Hamiltonian,   *)
(* the starting basis, the transition operators, the eigenstates inside    *)
(* the energy window, and the thermal averages of the spectra.             *)
(* p: [sh, Fdd, Fpp, Fpd, Gpd, xi, c, h, cf, h0 | given, r, R, qs]         *)
(***************************************************************************)
EXTENDS Ham, Harmonics, Inertia, Driver
Bas == INSTANCE Basis
Ls(p) == ShellLs(p.sh)
\* ---- one-electron terms
Wanted(p) == [x \in {p.given[k].name : k \in 1..Len(p.given)} |-> p.given[CHOOSE k \in 1..Len(p.given) : p.given[k].name = x].v]
InputM(p) ==
  IF p.cf THEN CFMatrix(Ls(p), NBs(p.sh), p.sh[DPos(p.sh)].nv, CFParams(Wanted(p)))
  ELSE MergeM([k \in 1..Len(p.h0) |-> (<<LabIx(Ls(p), NBs(p.sh), p.h0[k].to), LabIx(Ls(p), NBs(p.sh), p.h0[k].from)>> :> <<p.h0[k].v[1], p.h0[k].v[2]>>)])
NShell(p, l) == p.sh[CHOOSE k \in 1..Len(p.sh) : p.sh[k].l = l].n0
OneM(p) ==
  MergeM(<< SOCM(Ls(p), 1, p.xi[1]), SOCM(Ls(p), 2, p.xi[2]), FieldM(Ls(p), p.h),
            LevelM(Ls(p), 2, FxNeg(DCd(NShell(p, 2), NShell(p, 1), p.c, p.Fdd, p.Fpd, p.Gpd))),
            LevelM(Ls(p), 1, FxNeg(DCp(NShell(p, 2), p.c, p.Fpd, p.Gpd))), InputM(p) >>)
\* ---- two-electron terms: occupied pair -> amplitudes of the pairs it becomes
Seen(psi) == [s \in {x \in DOMAIN psi : ~CxIsZero(psi[x])} |-> psi[s]]
TwoTab(p) ==
  LET tab == OrbTab(Ls(p))
      all == Pairs(tab)
      blocks == PDBlocks(p.Fdd, p.Fpp, p.Fpd, p.Gpd)
  IN  TLCEval([q \in all |-> TLCEval(Seen(UOn(blocks, Ls(p), tab, all, {q[1], q[2]})))])
Lowest(s) == CHOOSE x \in s : \A y \in s : x <= y
Highest(s) == CHOOSE x \in s : \A y \in s : x >= y
\* ---- terms by what they remove
OneBy(M, n) == TLCEval([j \in 0..(n - 1) |->
  LET S == SeqOf({q \in DOMAIN M : q[2] = j /\ ~CxIsZero(M[q])}, <<>>) IN TLCEval([k \in 1..Len(S) |-> [t |-> << <<S[k][1], "c">>, <<j, "a">> >>, v |-> M[S[k]]]])])
TwoBy(W) == TLCEval([q \in DOMAIN W |->
  LET S == SeqOf(DOMAIN W[q], <<>>)
  IN  TLCEval([k \in 1..Len(S) |-> [t |-> << <<Lowest(S[k]), "c">>, <<Highest(S[k]), "c">>, <<q[2], "a">>, <<q[1], "a">> >>, v |-> W[q][S[k]]]])])
\* the Hamiltonian on a product state
RECURSIVE Chain(_, _, _)
Chain(f, S, acc) == IF S = {} THEN acc ELSE LET x == CHOOSE y \in S : TRUE IN Chain(f, S \ {x}, acc \o f[x])
HamOn(one, two, s) ==
  LET ps == {q \in s \X s : q \in DOMAIN two /\ two[q] # <<>>}
  IN  OpOnPS(Chain(two, ps, Chain(one, s, <<>>)), 1, s, CxOne, Empty)
\* ---- transition operators as terms
DipoleM(p, e) ==
  LET S == {<<2, s, m>> : s \in {0, 1}, m \in (-2)..2} X1 == {<<1, s, m>> : s \in {0, 1}, m \in (-1)..1}
      P == {q \in S \X X1 : q[1][2] = q[2][2] /\ Abs(q[1][3] - q[2][3]) <= 1}
  IN  TLCEval([q \in {<<Ix(Ls(p), x[1]), Ix(Ls(p), x[2])>> : x \in P} |->
        LET x == CHOOSE y \in P : <<Ix(Ls(p), y[1]), Ix(Ls(p), y[2])>> = q IN DipEl(e, 2, x[1][3], 1, x[2][3])])
Dirs == << <<CxOne, CxZero, CxZero>>, <<CxZero, CxOne, CxZero>>, <<CxZero, CxZero, CxOne>> >>
Norm3(q) == FxSqrt(FxAdd(FxMul(q[1], q[1]), FxAdd(FxMul(q[2], q[2]), FxMul(q[3], q[3]))))
RadInt(p, qn, k) == Trapz([x \in 1..Len(p.r) |-> CxR(FxMul(FxMul(p.R[x], p.R[x]), FxMul(JBessel(k, FxMul(qn, p.r[x])), FxMul(p.r[x], p.r[x]))))], p.r)
NixsM(p, q) == \* without the monopole
  LET qn == Norm3(q)
      e == TLCEval(<<FxDiv(q[1], qn), FxDiv(q[2], qn), FxDiv(q[3], qn)>>)
      rk == TLCEval([k \in 0..4 |-> IF k \in {2, 4} THEN RadInt(p, qn, k) ELSE CxZero])
      el == TLCEval([x \in ((-2)..2) \X ((-2)..2) |-> NixsEl(rk, e, 1, 2, x[1], 2, x[2])])
      P == {<<s, x>> : s \in {0, 1}, x \in DOMAIN el}
      At(y) == <<Ix(Ls(p), <<2, y[1], y[2][1]>>), Ix(Ls(p), <<2, y[1], y[2][2]>>)>>
  IN  TLCEval([i \in {At(y) : y \in P} |-> LET y == CHOOSE z \in P : At(z) = i IN el[y[2]]])
AdjointM(M) == TLCEval([q \in {<<x[2], x[1]>> : x \in DOMAIN M} |-> CxConj(M[<<q[2], q[1]>>])])
DOrb(p, k) == Ix(Ls(p), <<2, 0, -2>>) + k - 1
POrb(p, k) == Ix(Ls(p), <<1, 0, -1>>) + k - 1
AddOp(i) == << [t |-> << <<i, "c">> >>, v |-> CxOne] >>
RemOp(i) == << [t |-> << <<i, "a">> >>, v |-> CxOne] >>
=============================================================================

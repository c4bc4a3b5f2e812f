--------------------------------- MODULE Ham --------------------------------
(***************************************************************************)
(* The model Hamiltonian on the numbered orbitals of a p and a d shell     *)
(* (shells: order of the shells, nb: bath orbitals of each):               *)
(* Coulomb + spin-orbit + field - double counting + input Hamiltonian.     *)
(* A matrix of one-body amplitudes is a function <<i, j>> -> <i|h|j>.      *)
(***************************************************************************)
EXTENDS Cubic
RECURSIVE SumSeqR(_, _)
SumSeqR(q, k) == IF k = 0 THEN 0 ELSE q[k] + SumSeqR(q, k - 1)
SumSeq(q) == SumSeqR(q, Len(q))
NImp(shells) == SumSeq([k \in 1..Len(shells) |-> 2 * (2 * shells[k] + 1)])
RECURSIVE BathStart(_, _, _, _)
BathStart(shells, nb, l, k) == IF shells[k] = l THEN 0 ELSE nb[k] + BathStart(shells, nb, l, k + 1)
BathIx(shells, nb, l, b) == NImp(shells) + BathStart(shells, nb, l, 1) + b
NOrbs(shells, nb) == NImp(shells) + SumSeq(nb)
\* labels <<l, s, m>> and <<l, b>>
LabIx(shells, nb, o) == IF Len(o) = 3 THEN Ix(shells, <<o[1], o[2], o[3]>>) ELSE BathIx(shells, nb, o[1], o[2])
\* a one-body operator (sequence of terms) from a matrix
OpOfMatrix(f) == LET S == SeqOf(DOMAIN f, <<>>) IN TLCEval([k \in 1..Len(S) |-> [t |-> << <<S[k][1], "c">>, <<S[k][2], "a">> >>, v |-> f[S[k]]]])
MergeM(fs) == \* sum of sparse matrices
  LET D == UNION {DOMAIN fs[k] : k \in 1..Len(fs)}
  IN  TLCEval([p \in D |-> CxSum([k \in 1..Len(fs) |-> IF p \in DOMAIN fs[k] THEN fs[k][p] ELSE CxZero])])
\* matrix of a single-orbital action f(o): label -> amplitude
ActionM(shells, S, f(_)) ==
  MergeM(SeqOf({LET a == f(o) IN [p \in {<<Ix(shells, x), Ix(shells, o)>> : x \in DOMAIN a} |-> a[CHOOSE x \in DOMAIN a : Ix(shells, x) = p[1]]] : o \in S}, <<>>))
ShellSet(shells, l) == {o \in Orbs(shells) : o[1] = l}
SOCM(shells, l, xi) == ActionM(shells, ShellSet(shells, l), LAMBDA o : SOCOn(xi, o))
FieldM(shells, h) == ActionM(shells, ShellSet(shells, 2), LAMBDA o : FieldOn(h, o))
LevelM(shells, l, e) == ActionM(shells, ShellSet(shells, l), LAMBDA o : (o :> CxR(e)))
\* double counting of multiplet ligand field theory
Udd(Fdd) == FxSub(Fdd[1], FxMul(FxRat(14, 441), FxAdd(Fdd[3], Fdd[5])))
Upd(Fpd, Gpd) == FxSub(FxSub(Fpd[1], FxMul(FxRat(1, 15), Gpd[2])), FxMul(FxRat(3, 70), Gpd[4]))
DCd(n3d, n2p, c, Fdd, Fpd, Gpd) == FxSub(FxAdd(FxScale(Udd(Fdd), n3d), FxScale(Upd(Fpd, Gpd), n2p)), c)
DCp(n3d, c, Fpd, Gpd) == FxSub(FxScale(Upd(Fpd, Gpd), n3d + 1), c)
DCdOnly(n3d, c, Fdd) == FxSub(FxScale(Udd(Fdd), n3d), c)
\* ---- crystal field
CFNames == {"e_imp", "e_deltaO_imp", "e_val_eg", "e_val_t2g", "e_con_eg", "e_con_t2g", "v_val_eg", "v_val_t2g", "v_con_eg", "v_con_t2g"}
CFDefault == [e_imp |-> FxRat(-131796, 100000), e_deltaO_imp |-> FxRat(60422, 100000), e_val_eg |-> FxRat(-44, 10), e_val_t2g |-> FxRat(-65, 10),
              e_con_eg |-> FxInt(3), e_con_t2g |-> FxInt(2), v_val_eg |-> FxRat(1883, 1000), v_val_t2g |-> FxRat(1395, 1000),
              v_con_eg |-> FxRat(6, 10), v_con_t2g |-> FxRat(4, 10)]
CFParams(given) == [x \in CFNames |-> IF x \in DOMAIN given THEN given[x] ELSE CFDefault[x]]
\* <m| (a on eg, b on t2g) |mp>
CubMat(a, b, m, mp) == CxSum([c \in 1..5 |-> LET f == CubicList(2)[c] IN
   IF m \in DOMAIN f /\ mp \in DOMAIN f THEN CxScaleFx(CxMul(f[m], CxConj(f[mp])), IF c \in EgOf THEN a ELSE b) ELSE CxZero])
CubTab(a, b) == TLCEval([p \in ((-2)..2) \X ((-2)..2) |-> CubMat(a, b, p[1], p[2])])
\* to(s, m), from(s, m): orbital indices
SpinBlocks(tab, to(_, _), from(_, _)) ==
  LET Q == {<<s, p>> \in {0, 1} \X DOMAIN tab : ~CxIsZero(tab[p])}
  IN  TLCEval([x \in {<<to(q[1], q[2][1]), from(q[1], q[2][2])>> : q \in Q} |->
        LET q == CHOOSE y \in Q : <<to(y[1], y[2][1]), from(y[1], y[2][2])>> = x IN tab[q[2]]])
CFImp(shells, p) == SpinBlocks(CubTab(FxAdd(p.e_imp, FxMul(FxRat(3, 5), p.e_deltaO_imp)), FxSub(p.e_imp, FxMul(FxRat(2, 5), p.e_deltaO_imp))),
                       LAMBDA s, m : Ix(shells, <<2, s, m>>), LAMBDA s, m : Ix(shells, <<2, s, m>>))
\* spherical bath orbitals, numbered as the shell, from bath number b0
CFBath(shells, nb, b0, eEg, eT2g, vEg, vT2g) ==
  LET B(s, m) == BathIx(shells, nb, 2, b0 + 5 * s + m + 2)
      D(s, m) == Ix(shells, <<2, s, m>>)
      v == CubTab(vEg, vT2g)
  IN  MergeM(<< SpinBlocks(CubTab(eEg, eT2g), B, B), SpinBlocks(v, B, D), SpinBlocks(v, D, B) >>)
HasCon(shells, nb, nv) == nb[CHOOSE k \in 1..Len(shells) : shells[k] = 2] - nv = 10
CFMatrix(shells, nb, nv, p) ==
  MergeM(<< CFImp(shells, p), CFBath(shells, nb, 0, p.e_val_eg, p.e_val_t2g, p.v_val_eg, p.v_val_t2g) >> \o
         (IF HasCon(shells, nb, nv) THEN << CFBath(shells, nb, 10, p.e_con_eg, p.e_con_t2g, p.v_con_eg, p.v_con_t2g) >> ELSE <<>>))
=============================================================================

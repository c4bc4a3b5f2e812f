----------------------------- MODULE DriverJudge ----------------------------
\* What reached the stages of a run with given eigenstates, and what was stored.
EXTENDS Driver, TraceData
Bas == INSTANCE Basis
AllOk(r) == r.status = "ok" /\ \A k \in 1..Len(r.res) : r.res[k].err = ""
NearFx(a, b, tol) == FxIsReal(a) /\ FxLe(BAbs(FxSub(a, b)), tol)
SameNums(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : NearFx(a[k], b[k], FxNano(1))
SameCx(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : CxClose(<<a[k][1], a[k][2]>>, <<b[k][1], b[k][2]>>, FxNano(1000))
States(js) == TLCEval([k \in 1..Len(js) |-> TLCEval(DecState(js[k]))])
Val(ps, name) == LET S == {k \in 1..Len(ps) : ps[k][1] = name} IN IF Cardinality(S) = 1 THEN ps[CHOOSE k \in S : TRUE][2] ELSE <<>>
ReportRight(printed, want, tol) == \A k \in 1..Len(want) : NearFx(Val(printed, want[k][1]), want[k][2], tol)
\* ---- the table of expectation values of the first n eigenstates
TableOfStates(tab, ls, es, psi, n) ==
  /\ Len(tab.e0) = 1 /\ NearFx(tab.e0[1], es[1], FxRat(51, 1000000))
  /\ Len(tab.rows) = n
  /\ \A k \in 1..n :
       LET row == tab.rows[k] want == TLCEval(Reported(ls, <<es[k]>>, <<psi[k]>>, FxInt(10), FxInt(300))) IN
       /\ Val(row, "i") = FxInt(k - 1)
       /\ NearFx(Val(row, "E-E0"), FxSub(es[k], es[1]), FxRat(51, 100000))
       /\ \A q \in 2..Len(want) : NearFx(Val(row, want[q][1]), want[q][2], FxRat(51, 10000))
\* ---- the heaviest product states of each eigenstate, heaviest first, and the occupied harmonics
Weight(psi, s) == IF s \in DOMAIN psi THEN CxAbs2(psi[s]) ELSE FxNeg(FxOne)
SlaterRight(rep, psi, most) ==
  LET want == Min2(most, Cardinality(DOMAIN psi))
      ps == [j \in 1..Len(rep.ps) |-> SetOf(rep.ps[j])]
      tol == FxMicro(1)
  IN  /\ rep.n = Cardinality(DOMAIN psi)
      /\ Len(rep.w) = want /\ Len(ps) = want
      /\ Cardinality({ps[j] : j \in 1..want}) = want
      /\ \A j \in 1..want : NearFx(Weight(psi, ps[j]), rep.w[j], tol)
      /\ \A j \in 1..(want - 1) : FxLe(rep.w[j + 1], FxAdd(rep.w[j], tol))
      /\ want > 0 => \A s \in DOMAIN psi : s \in {ps[j] : j \in 1..want} \/ FxLe(Weight(psi, s), FxAdd(rep.w[want], tol))
DiagRight(rep, shells, psi, tol) ==
  LET occ == TLCEval([q \in {0, 1} \X (0..4) |-> CubOcc(shells, {q[2] + 1}, q[1], psi)[1]])
      got == {<<rep[k][1], rep[k][2]>> : k \in 1..Len(rep)}
  IN  /\ Cardinality(got) = Len(rep) /\ got \subseteq DOMAIN occ
      /\ \A k \in 1..Len(rep) : NearFx(rep[k][3], occ[<<rep[k][1], rep[k][2]>>], FxRat(51, 10000))
      /\ \A q \in DOMAIN occ : (FxLt(FxAdd(tol, FxMicro(1)), occ[q]) => q \in got) /\ (q \in got => FxLt(tol, FxAdd(occ[q], FxMicro(1))))
OffRight(rep, shells, psi, tol) ==
  LET H == {0, 1} \X (1..5)
      pairs == {q \in H \X H : q[1] # q[2]}
      coh == TLCEval([q \in pairs |-> CubCoherence(shells, q[1], q[2], psi)])
      key(k) == <<<<rep[k][1], rep[k][2] + 1>>, <<rep[k][3], rep[k][4] + 1>>>>
      got == {key(k) : k \in 1..Len(rep)}
  IN  /\ Cardinality(got) = Len(rep) /\ got \subseteq pairs
      /\ \A k \in 1..Len(rep) : NearFx(rep[k][5], coh[key(k)], FxRat(11, 1000))
      /\ \A q \in pairs : (FxLt(FxAdd(tol, FxMicro(1)), coh[q]) => q \in got) /\ (q \in got => FxLt(tol, FxAdd(coh[q], FxMicro(1))))
\* ---- what reached the spectra stage and what was stored, with eigenstates chosen by the specification
Polar == << <<FxOne, FxZero, FxZero>>, <<FxZero, FxOne, FxZero>>, <<FxZero, FxZero, FxOne>> >>
MainRight(r) ==
  LET psi == States(r.psis)
      win == Window(r.es, r.cut, r.T)
      nw == Cardinality(win)
      out(k) == r.res[k].ok
      sim(k) == out(k).sim
      named == [k \in 1..Len(r.given) |-> r.given[k][1]]
      stored == out(1).npz
  IN  IF ~AllOk(r) THEN "raised"
      ELSE IF ~(\A k \in 1..r.size : "es" \in DOMAIN sim(k)) THEN "no-spectra-stage"
      ELSE Clauses(<<
        <<"basis-of-the-calculation", \A k \in 1..r.size : out(k).eig.n = NAll(r.shells) /\
             LET b == out(k).eig.basis IN Len(b) = Cardinality({SetOf(b[j]) : j \in 1..Len(b)}) /\ {SetOf(b[j]) : j \in 1..Len(b)} = Bas!Configs(r.shells)>>,
        <<"number-of-states", \A k \in 1..r.size : out(k).eig.num = r.num>>,
        <<"hamiltonian", \A k \in 1..r.size : SameCx(out(k).eig.op, r.op) /\ SameCx(sim(k).op, r.op)>>,
        <<"energy-window", \A k \in 1..r.size : SameNums(sim(k).es, [j \in 1..nw |-> r.es[j]])>>,
        <<"states-of-the-window", \A k \in 1..r.size : Len(sim(k).psis) = nw /\ \A j \in 1..nw : StateClose(DecState(sim(k).psis[j]), psi[j], FxPico(1))>>,
        <<"temperature", \A k \in 1..r.size : NearFx(sim(k).T, r.T, FxNano(1))>>,
        <<"broadening", \A k \in 1..r.size : SameNums(<<sim(k).delta, sim(k).deltaNIXS, sim(k).deltaRIXS>>, r.deltas)>>,
        <<"occupation-restrictions", \A k \in 1..r.size : Meaning(DecRestr(sim(k).restr)) = Meaning(Want(r.shells))>>,
        <<"shells", \A k \in 1..r.size : sim(k).nb = [j \in 1..Len(r.shells) |-> <<r.shells[j].l, r.shells[j].nb>>] /\ sim(k).li = 2 /\ sim(k).lj = 2>>,
        <<"radial-functions", \A k \in 1..r.size : SameNums(sim(k).radialMesh, r.r) /\ SameNums(sim(k).RiNIXS, r.R) /\ SameNums(sim(k).RjNIXS, r.R)>>,
        <<"polarisations", \A k \in 1..r.size : sim(k).epsilons = Polar /\ sim(k).epsilonsRIXSin = Polar /\ sim(k).epsilonsRIXSout = Polar>>,
        <<"only-first-process-writes", \A k \in 2..r.size : out(k).files = <<>>>>,
        <<"files", {"spectra.h5", "data.npz"} \subseteq SetOf(out(1).files)>>,
        <<"stored-energies", SameNums(out(1).h5.E, r.es)>>,
        <<"stored-meshes", SetOf(out(1).h5.same) = {"w", "wIn", "wLoss", "qsNIXS", "RiNIXS", "RjNIXS", "r"}>>,
        <<"stored-parameters", SetOf(named) \subseteq {stored[k][1] : k \in 1..Len(stored)} /\
             \A k \in 1..Len(r.given) : SameNums(Val(stored, r.given[k][1]), r.given[k][2])>>,
        <<"reported-product-states", Len(out(1).states.slater) = Len(r.es) /\
             \A k \in 1..Len(r.es) : SlaterRight(out(1).states.slater[k], psi[k], r.most)>>,
        <<"reported-occupations", Len(out(1).states.diag) = Len(r.es) /\
             \A k \in 1..Len(r.es) : DiagRight(out(1).states.diag[k], ShellLs(r.shells), psi[k], r.tolocc)>>,
        <<"reported-coherences", Len(out(1).states.off) = Len(r.es) /\
             \A k \in 1..Len(r.es) : OffRight(out(1).states.off[k], ShellLs(r.shells), psi[k], r.tolocc)>>,
        <<"reported-table", TableOfStates(out(1).table, ShellLs(r.shells), r.es, psi, Len(r.es))>>,
        <<"reported-expectation-values", LET ls == ShellLs(r.shells) IN
             \* states left out by the reporting cutoff weigh at most exp(-10) each
             ReportRight(out(1).printed, Reported(ls, r.es, psi, FxInt(10), r.T), FxRat(21, 10000))>> >>)
=============================================================================

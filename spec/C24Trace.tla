------------------------------ MODULE C24Trace ------------------------------
EXTENDS DriverJudge
VARIABLES i, verdict
C == INSTANCE Cli
FxQ(v) == [k \in 1..Len(v) |-> FxRat(v[k][1], v[k][2])]
Stored == C!Lists \o C!Slater \o <<"xi_2p", "xi_3d", "chargeTransferCorrection", "nPsiMax", "T", "delta", "deltaRIXS", "deltaNIXS">>
\* ---- a run command: r.opts as given on the command line
Computed(o) == o.started # <<>> \/ DOMAIN o.eig # {} \/ DOMAIN o.sim # {} \/ SetOf(o.files) \cap {"spectra.h5", "data.npz"} # {}
CliRight(r) ==
  LET val(o) == C!Value(r.opts, o)
      num(o) == FxQ(val(o))[1]
      sh == C!ShellsOf(r.opts)
      psi == States(r.psis)
      nw == Cardinality(Window(r.es, num("energy_cut"), num("T")))
      out(k) == r.res[k].ok
      sim(k) == out(k).sim
      all(P(_)) == \A k \in 1..r.size : P(k)
      shown == val("nPrintSlaterWeights")[1][1]
      tol == num("tolPrintOccupation")
      occ(p) == {<<c, s>> : c \in 1..5, s \in {0, 1}}
      count(p, t) == Cardinality({q \in occ(p) : FxLt(t, CubOcc(ShellLs(sh), {q[1]}, q[2], p)[1])})
  IN  IF ~AllOk(r) THEN "raised"
      ELSE IF ~C!Consistent(r.mod, r.opts)
      THEN IF \E k \in 1..r.size : Computed(out(k)) THEN "computed-with-inconsistent-input"
           ELSE IF \E k \in 1..r.size : out(k).end = "" THEN "inconsistent-input-accepted" ELSE "ok"
      ELSE IF \E k \in 1..r.size : out(k).end # "" THEN "consistent-input-refused"
      ELSE IF ~all(LAMBDA k : DOMAIN out(k).eig # {} /\ "es" \in DOMAIN sim(k)) THEN "nothing-computed"
      ELSE Clauses(<<
        <<"shells", all(LAMBDA k : sim(k).nb = [j \in 1..Len(sh) |-> <<sh[j].l, sh[j].nb>>] /\ out(k).eig.n = NAll(sh))>>,
        <<"occupations", all(LAMBDA k : out(k).eig.basis = Cardinality(Bas!Configs(sh)) /\ Meaning(DecRestr(sim(k).restr)) = Meaning(Want(sh)))>>,
        <<"number-of-states", all(LAMBDA k : out(k).eig.num = val("nPsiMax")[1][1])>>,
        <<"parameters-of-the-hamiltonian", all(LAMBDA k : SameCx(out(k).eig.op, r.op) /\ SameCx(sim(k).op, r.op))>>,
        <<"temperature", all(LAMBDA k : NearFx(sim(k).T, num("T"), FxNano(1)))>>,
        <<"energy_cut", all(LAMBDA k : SameNums(sim(k).es, [j \in 1..nw |-> r.es[j]]))>>,
        <<"delta", all(LAMBDA k : NearFx(sim(k).delta, num("delta"), FxNano(1)))>>,
        <<"deltaNIXS", all(LAMBDA k : NearFx(sim(k).deltaNIXS, num("deltaNIXS"), FxNano(1)))>>,
        <<"deltaRIXS", all(LAMBDA k : NearFx(sim(k).deltaRIXS, num("deltaRIXS"), FxNano(1)))>>,
        <<"radial_filename", all(LAMBDA k : SameNums(sim(k).radialMesh, r.r) /\ SameNums(sim(k).RiNIXS, r.R) /\ SameNums(sim(k).RjNIXS, r.R))>>,
        <<"stored-input", \A k \in 1..Len(Stored) : SameNums(Val(out(1).npz, Stored[k]), FxQ(val(Stored[k])))>>,
        <<"nPrintSlaterWeights", out(1).weights = IF shown = 0 THEN <<>> ELSE [k \in 1..Len(psi) |-> Min2(shown, Cardinality(DOMAIN psi[k]))]>>,
        <<"tolPrintOccupation", Len(out(1).diag) = Len(psi) /\ \A k \in 1..Len(psi) :
              /\ \A q \in 1..Len(out(1).diag[k]) : FxLe(FxSub(tol, FxRat(51, 10000)), out(1).diag[k][q])
              /\ Len(out(1).diag[k]) \in count(psi[k], FxAdd(tol, FxMicro(1)))..count(psi[k], FxSub(tol, FxMicro(1)))>> >>)
\* ---- the documented scripts: which command they start
Docs(script, n1, n2) == \* element, default of the first and second argument
  CASE script = "run_Ni_NiO_Xbath.sh" -> [mod |-> "get_spectra", ranks |-> IF n2 = "" THEN "1" ELSE n2, radial |-> "Ni3d.dat", h0 |-> "h0_NiO_" \o (IF n1 = "" THEN "10" ELSE n1) \o "bath.pickle", d |-> 8]
    [] script = "run_Ni_NiO_50p10bath.sh" -> [mod |-> "get_spectra", ranks |-> IF n1 = "" THEN "1" ELSE n1, radial |-> "Ni3d.dat", h0 |-> "h0_NiO_50p10bath.pickle", d |-> 8]
    [] script = "run_Ni_NiO_CF.sh" -> [mod |-> "get_spectra_using_CF", ranks |-> "1", radial |-> "Ni3d.dat", h0 |-> "h0_NiO_CF.json", d |-> 8]
    [] script = "run_Co_CoO_CF.sh" -> [mod |-> "get_spectra_using_CF", ranks |-> "1", radial |-> "Co3d.dat", h0 |-> "h0_CoO_CF.json", d |-> 7]
    [] script = "run_Fe_FeO_CF.sh" -> [mod |-> "get_spectra_using_CF", ranks |-> "1", radial |-> "Fe3d.dat", h0 |-> "h0_FeO_CF.json", d |-> 6]
    [] script = "run_Mn_MnO_CF.sh" -> [mod |-> "get_spectra_using_CF", ranks |-> "1", radial |-> "Mn3d.dat", h0 |-> "h0_MnO_CF.json", d |-> 5]
\* baths of the d shell: all of them, and the valence baths
Baths(script, n1) == IF script = "run_Ni_NiO_50p10bath.sh" THEN <<60, 50>>
                     ELSE IF script = "run_Ni_NiO_Xbath.sh" THEN CASE n1 = "" -> <<10, 10>> [] n1 = "10" -> <<10, 10>> [] n1 = "20" -> <<20, 20>> [] n1 = "50" -> <<50, 50>> [] n1 = "100" -> <<100, 100>> [] n1 = "300" -> <<300, 300>>
                     ELSE <<10, 10>>
ScriptRight(r) ==
  LET w == Docs(r.script, r.a1, r.a2) b == Baths(r.script, r.a1) IN
  IF ~C!Consistent(w.mod, r.opts) THEN "script-input-refused" ELSE
  Clauses(<< <<"script-failed", r.rc = 0 /\ r.calls = 1>>, <<"command", r.mod = "impurityModel.ed." \o w.mod>>, <<"processes", r.ranks = w.ranks>>,
             <<"files", r.exist /\ r.h0 = w.h0 /\ r.radial = w.radial>>,
             <<"script-input-refused", C!Decided(r.opts)>>,
             <<"script-baths", C!Num(r.opts, "nBaths", 2) = b[1] /\ C!Num(r.opts, "nValBaths", 2) = b[2]>>,
             <<"script-occupation", C!Num(r.opts, "n0imps", 2) = w.d /\ C!Num(r.opts, "n0imps", 1) = 6>>,
             <<"command-stops", r.end = "" /\ r.reached>>,
             <<"script-basis", r.nspin = 16 + b[1]>> >>)
\* ---- plots: everything stored is drawn
ColSum(A) == SumOver(A)
Close2(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : FxIsReal(a[k]) /\ FxLe(BAbs(FxSub(a[k], b[k])), FxAdd(FxNano(10), FxMul(FxNano(200), BAbs(b[k]))))
Drawn(r, x, y) == \E k \in 1..Len(r.ok.lines) : Close2(r.ok.lines[k].x, x) /\ Close2(r.ok.lines[k].y, y)
\* the map M: rows of energy loss, columns of incoming energy
Map(r, M) == \E k \in 1..Len(r.ok.images) : LET im == r.ok.images[k] IN
  /\ im.up /\ Len(im.v) = Len(M)
  /\ \A a \in 1..Len(M) : Len(im.v[a]) = Len(M[a]) /\ \A b \in 1..Len(M[a]) :
       IF FxLe(FxMicro(2), M[a][b]) THEN Close2(<<im.v[a][b]>>, <<M[a][b]>>) ELSE TRUE
  /\ LET e == im.extent w == r.wIn l == r.wLoss IN
       /\ FxLe(e[1], FxAdd(w[1], FxNano(1000))) /\ FxLe(w[Len(w)], FxAdd(e[2], FxNano(1000))) /\ FxLe(e[3], FxAdd(l[1], FxNano(1000))) /\ FxLe(l[Len(l)], FxAdd(e[4], FxNano(1000)))
Has2(r, f) == f \in SetOf(r.has)
\* RIXS is stored as in x out x incoming x loss
MapOf(r, S) == [a \in 1..Len(r.wLoss) |-> [b \in 1..Len(r.wIn) |-> FxSum([k \in 1..Len(S) |-> r.RIXS[S[k][1]][S[k][2]][b][a]])]]
PolPairs(r) == SeqOf((1..Len(r.RIXS)) \X (1..Len(r.RIXS[1])), <<>>)
PlotRight(r) ==
  IF r.missing THEN IF r.ok.end = "" THEN "missing-file-accepted" ELSE "ok"
  ELSE IF r.ok.end # "" THEN "plot-command-failed"
  ELSE Clauses(<<
    <<"photoemission-not-drawn", Has2(r, "PS") => Drawn(r, r.w, ColSum(r.PS))>>,
    <<"core-photoemission-not-drawn", Has2(r, "XPS") => Drawn(r, r.w, ColSum(r.XPS))>>,
    <<"XAS-not-drawn", Has2(r, "XAS") => Drawn(r, r.w, ColSum(r.XAS))>>,
    <<"NIXS-not-drawn", Has2(r, "NIXS") => \A q \in 1..Len(r.NIXS) : Drawn(r, r.wLoss, r.NIXS[q])>>,
    <<"map-not-drawn", Has2(r, "RIXS") => Map(r, MapOf(r, PolPairs(r)))>>,
    <<"polarisation-not-drawn", (Has2(r, "RIXS") /\ r.cmd = "plotSpectra") => \A k \in 1..Len(PolPairs(r)) : Map(r, MapOf(r, <<PolPairs(r)[k]>>))>> >>)
J(r) == CASE r.kind = "cli" -> CliRight(r)
          [] r.kind = "script" -> ScriptRight(r)
          [] r.kind = "plot" -> PlotRight(r)
          [] OTHER -> "unknown-record"
INSTANCE TraceBase WITH Judge <- J
=============================================================================

------------------------------ MODULE C23Trace ------------------------------
EXTENDS DriverJudge
VARIABLES i, verdict
\* ---- reports
ThermalRight(r) ==
  LET psi == States(r.psis) IN
  IF ~AllOk(r) THEN "raised"
  ELSE Clauses(<< <<"reported-table", TableOfStates(r.res[1].ok.table, r.ls, r.es, psi, r.first)>>,
                  <<"reported-expectation-values", ReportRight(r.res[1].ok.printed, Reported(r.ls, r.es, psi, r.cut, r.T), FxRat(51, 100000))>> >>)
\* ---- files of the spectra stage
ImNeg(G) == [k \in 1..Len(G) |-> [t \in 1..Len(G[k]) |-> [x \in 1..Len(G[k][t]) |-> FxNeg(G[k][t][x][2])]]]
Minus(A, B) == [k \in 1..Len(A) |-> [t \in 1..Len(A[k]) |-> [x \in 1..Len(A[k][t]) |-> FxSub(A[k][t][x], B[k][t][x])]]]
Negate(A) == [k \in 1..Len(A) |-> [t \in 1..Len(A[k]) |-> [x \in 1..Len(A[k][t]) |-> FxNeg(A[k][t][x])]]]
Same3(A, B, tol) == Len(A) = Len(B) /\ \A k \in 1..Len(A) : Len(A[k]) = Len(B[k]) /\ \A t \in 1..Len(A[k]) : Len(A[k][t]) = Len(B[k][t]) /\
                      \A x \in 1..Len(A[k][t]) : NearFx(A[k][t][x], B[k][t][x], FxAdd(tol, FxMul(FxNano(1), BAbs(B[k][t][x]))))
Same2(A, B, tol) == Same3(<<A>>, <<B>>, tol)
NonNeg(A) == \A k \in 1..Len(A) : \A t \in 1..Len(A[k]) : \A x \in 1..Len(A[k][t]) : FxLe(FxNeg(FxNano(1)), A[k][t][x])
\* a text table: columns mesh, sum, one per transition; numbers rounded to four decimals
TableRight(t, mesh, A) ==
  LET tot == SumOver(A) r4 == FxRat(5001, 100000000) IN
  /\ Len(t.rows) = Len(mesh)
  /\ \A x \in 1..Len(mesh) : Len(t.rows[x]) = Len(A) + 2 /\ NearFx(t.rows[x][1], mesh[x], r4) /\ NearFx(t.rows[x][2], tot[x], r4)
                            /\ \A k \in 1..Len(A) : NearFx(t.rows[x][k + 2], A[k][x], r4)
F32(got, want) == FxIsReal(got) /\ FxLe(BAbs(FxSub(got, want)), FxAdd(FxPico(100), FxMul(FxNano(70), BAbs(want))))
\* the map: first row number of columns and incoming energies, then one row per energy loss
MapRight(b, nin, win, wloss, A) == \* A: transitions x (incoming, loss), loss fastest
  LET tot == SumOver(A) c == Len(win) + 1 IN
  /\ Len(b) = c * (Len(wloss) + 1)
  /\ F32(b[1], FxInt(nin)) /\ \A k \in 1..Len(win) : F32(b[k + 1], win[k])
  /\ \A q \in 1..Len(wloss) : F32(b[c * q + 1], wloss[q]) /\ \A k \in 1..Len(win) : F32(b[c * q + 1 + k], tot[(k - 1) * Len(wloss) + q])
Names == <<"PS", "XPS", "NIXS", "XAS", "RIXS">>
StoredRight(h5, es, T) == \* thermal data sets
  \A n \in 1..5 : Same2(h5[Names[n] \o "thermal"], MeanOver(es, T, h5[Names[n]]), FxNano(10))
FilesRight(r) ==
  IF ~AllOk(r) THEN "raised" ELSE
  LET o == r.res[1].ok G == o.G h5 == o.h5
      tol == FxNano(100)
      ns == Len(r.es) nw == Len(r.w) nl == Len(r.wloss) ni == Len(r.win)
  IN  IF ~({"PS", "XPS", "NIXS", "XAS", "RIXS"} \subseteq DOMAIN h5 /\ {Names[n] \o "thermal" : n \in 1..5} \subseteq DOMAIN h5) THEN "data-sets"
      ELSE IF ~(o.shape.RIXS = <<ns, r.nin, r.nout, ni, nl>> /\ o.shape.RIXSthermal = <<r.nin, r.nout, ni, nl>> /\ o.shape.PS = <<ns, 10, nw>>
                /\ o.shape.XPS = <<ns, 6, nw>> /\ o.shape.NIXS = <<ns, r.nq, nl>> /\ o.shape.XAS = <<ns, r.neps, nw>>) THEN "shape"
      ELSE Clauses(<<
        <<"photoemission", Same3(h5.PS, Minus(ImNeg(G.IPS), ImNeg(G.PS)), tol)>>,
        <<"core-photoemission", Same3(h5.XPS, Negate(ImNeg(G.XPS)), tol)>>,
        <<"NIXS", Same3(h5.NIXS, ImNeg(G.NIXS), tol)>>, <<"XAS", Same3(h5.XAS, ImNeg(G.XAS), tol)>>, <<"RIXS", Same3(h5.RIXS, ImNeg(G.RIXS), tol)>>,
        <<"negative-spectrum", \A n \in 1..5 : NonNeg(h5[Names[n]])>>,
        <<"thermal-average", StoredRight(h5, r.es, r.T)>>,
        <<"text-files", /\ {"PS", "XPS", "NIXS", "XAS"} \subseteq DOMAIN o.dat
             /\ TableRight(o.dat.PS, r.w, h5.PSthermal) /\ TableRight(o.dat.XPS, r.w, h5.XPSthermal)
             /\ TableRight(o.dat.NIXS, r.wloss, h5.NIXSthermal) /\ TableRight(o.dat.XAS, r.w, h5.XASthermal)>>,
        <<"map-file", MapRight(o.bin, ni, r.win, r.wloss, h5.RIXSthermal)>>,
        <<"inputs-modified", \A k \in 1..r.size : r.res[k].ok.kept>>,
        <<"only-first-process-writes", \A k \in 2..r.size : r.res[k].ok.files = <<>>>>,
        <<"files", SetOf(o.files) = {"spectra.h5", "PS.dat", "XPS.dat", "NIXS.dat", "XAS.dat", "RIXS.bin"}>> >>)
\* ---- a whole run, at a few mesh points of everything it left
RunRight(r) ==
  IF ~AllOk(r) THEN "raised" ELSE
  LET o == r.res[1].ok h5 == o.h5
      nw == Cardinality(Window(o.E, r.cut, r.T))
      es == [k \in 1..nw |-> o.E[k]]
  IN  Clauses(<<
        <<"number-of-states", Len(o.E) = r.num>>,
        <<"not-ascending", \A k \in 1..(r.num - 1) : FxLe(o.E[k], FxAdd(o.E[k + 1], FxNano(1)))>>,
        <<"energy-window", Margin(o.E, r.cut, r.T) => \A n \in 1..5 : Len(h5[Names[n]]) = nw>>,
        <<"negative-spectrum", FxLe(FxNeg(FxNano(1)), o.low)>>,
        <<"shape", \A n \in 1..5 : Len(h5[Names[n]]) = Len(h5.PS)>>,
        <<"thermal-average", (\A n \in 1..5 : Len(h5[Names[n]]) = nw) => StoredRight(h5, es, r.T)>>,
        <<"text-files", TableRight(o.dat.PS, o.w, h5.PSthermal) /\ TableRight(o.dat.XPS, o.w, h5.XPSthermal)
             /\ TableRight(o.dat.NIXS, o.wloss, h5.NIXSthermal) /\ TableRight(o.dat.XAS, o.w, h5.XASthermal)
             /\ o.dat.PS.len = o.lens[1] /\ o.dat.XPS.len = o.lens[1] /\ o.dat.XAS.len = o.lens[1] /\ o.dat.NIXS.len = o.lens[2]>>,
        <<"map-file", o.binlen = (o.lens[2] + 1) * (o.lens[3] + 1) /\ MapRight(o.bin, o.lens[3], o.win, o.wloss, h5.RIXSthermal)>>,
        <<"occupation-reported", NearFx(Val(o.printed, "N(3d)"), FxInt(r.n3d), FxRat(51, 100000))>>,
        <<"only-first-process-writes", \A k \in 2..r.size : r.res[k].ok.files = <<>>>>,
        <<"same-for-any-process-count", ("ref" \in DOMAIN r /\ r.ref # <<>>) => \A n \in 1..5 : Same2(h5[Names[n] \o "thermal"], r.ref[1][Names[n] \o "thermal"], FxNano(10000))>> >>)
J(r) == CASE r.kind = "main" -> MainRight(r)
          [] r.kind = "thermal" -> ThermalRight(r)
          [] r.kind = "files" -> FilesRight(r)
          [] r.kind = "run" -> RunRight(r)
          [] OTHER -> "unknown-record"
INSTANCE TraceBase WITH Judge <- J
=============================================================================

------------------------------ MODULE C25Trace ------------------------------
(***************************************************************************)
(* A complete run.  The recorded eigenvectors and the solutions of the     *)
(* linear systems are only proposals: they are verified here against the   *)
(* operators of the specification before anything is compared with them.   *)
(***************************************************************************)
EXTENDS Run, TraceData
VARIABLES i, verdict
Fams == <<"PS", "XPS", "XAS", "NIXS", "RIXS">>
\* ---- spaces: ordered product states, the column of H of each, closed or not; the first is the starting basis
Space(one, two, restr, js, closed) ==
  LET st == TLCEval([k \in 1..Len(js) |-> SetOf(js[k])])
      ix == TLCEval([s \in {st[k] : k \in 1..Len(st)} |-> CHOOSE k \in 1..Len(st) : st[k] = s])
      col == TLCEval([k \in 1..Len(st) |->
               LET f == HamOn(one, two, st[k])
                   D == SeqOf({t \in DOMAIN f : (t \in DOMAIN ix \/ closed) /\ (~closed \/ (Allowed(t, restr) /\ FxLe(FxMul(FxNano(1), FxPico(1)), CxAbs2(f[t]))))}, <<>>)
               IN  TLCEval([m \in 1..Len(D) |-> <<IF D[m] \in DOMAIN ix THEN ix[D[m]] ELSE 0, f[D[m]]>>])])
  IN  [st |-> st, col |-> col,
       ok |-> Cardinality(DOMAIN ix) = Len(st) /\ (closed => \A k \in 1..Len(st) : Allowed(st[k], restr) /\ \A m \in 1..Len(col[k]) : col[k][m][1] # 0)]
DenseH(S) ==
  LET at == TLCEval([j \in 1..Len(S.st) |-> TLCEval([a \in {S.col[j][m][1] : m \in 1..Len(S.col[j])} |-> S.col[j][CHOOSE m \in 1..Len(S.col[j]) : S.col[j][m][1] = a][2]])])
  IN  TLCEval([a \in 1..Len(S.st) |-> TLCEval([b \in 1..Len(S.st) |-> IF a \in DOMAIN at[b] THEN at[b][a] ELSE CxZero])])
\* H is Hermitian: row a of H is the conjugate of column a
RowH(S, x, a) == CxSum([m \in 1..Len(S.col[a]) |-> IF CxIsZero(x[S.col[a][m][1]]) THEN CxZero ELSE CxMul(CxConj(S.col[a][m][2]), x[S.col[a][m][1]])])
Dec(js) == TLCEval([k \in 1..Len(js) |-> <<js[k][1], js[k][2]>>])
StateIn(S, x) == TLCEval([s \in {S.st[k] : k \in {m \in 1..Len(x) : ~CxIsZero(x[m])}} |-> x[CHOOSE k \in 1..Len(x) : S.st[k] = s]])
In(S, phi) == TLCEval([k \in 1..Len(S.st) |-> Amp(phi, S.st[k])])
Tiny == FxMul(FxNano(1), FxNano(1))
\* (z - H) x = phi
Solves(S, x, z, phi) ==
  /\ Len(x) = Len(S.st)
  /\ LET v == In(S, phi)
     IN  /\ FxLe(BAbs(FxSub(VNorm2(v), Norm2(phi))), Tiny)
         /\ FxLe(FxSum([a \in 1..Len(x) |-> CxAbs2(CxSub(CxSub(CxMul(z, x[a]), RowH(S, x, a)), v[a]))]), Tiny)
Eigen(S, x, e) == FxLe(FxSum([a \in 1..Len(x) |-> CxAbs2(CxSub(CxScaleFx(x[a], e), RowH(S, x, a)))]), Tiny)
\* ---- tolerances: the package drops components of weight below 10^-7
Small(psi) == Cardinality({s \in DOMAIN psi : LET w == CxAbs2(psi[s]) IN FxLt(Tiny, w) /\ FxLt(w, FxNano(250))})
DropOf(n) == FxSqrt(FxAdd(FxMul(FxNano(100), FxInt(n)), FxNano(10)))
Bound(norm, d, delta) == FxDiv(FxAdd(FxMul(FxScale(norm, 2), d), FxAdd(FxMul(d, d), FxMul(FxMicro(20), FxMul(norm, norm)))), delta)
RowSum(M) == LET Rows == {q[1] : q \in DOMAIN M}
                 sum(a) == FxSum(LET D == SeqOf({q \in DOMAIN M : q[1] = a}, <<>>) IN [k \in 1..Len(D) |-> FxSqrt(CxAbs2(M[D[k]]))])
             IN  LET big == CHOOSE a \in Rows : \A b \in Rows : FxLe(sum(b), sum(a)) IN sum(big)
\* ---- the verdict
Ready(r) ==
  IF r.status # "ok" \/ r.bad # "" THEN "raised"
  ELSE IF ~r.full THEN "not-a-number"
  ELSE IF r.shape # r.want THEN "shape"
  ELSE "ok"
SpectraRight(r) ==
  LET p == r.par
      n == NAll(p.sh)
      one == TLCEval(OneBy(OneM(p), n))
      two == TLCEval(TwoBy(TwoTab(p)))
      restr == Want(p.sh)
      S == TLCEval([q \in 1..Len(r.sec) |-> TLCEval(Space(one, two, restr, r.sec[q], q # r.of.ground))])
      G == S[r.of.ground]
      H == DenseH(G)
      vec == TLCEval([k \in 1..r.m |-> Dec(r.psi[k])])
      psi == TLCEval([k \in 1..r.m |-> StateIn(G, vec[k])])
      es == r.es
      loose == \E k \in 1..r.nw : k < r.m /\ FxLt(FxSub(es[k + 1], es[k]), FxMicro(100))
      win == {k \in Window(es, r.cut, r.T) : k <= r.num}
      wt == TLCEval(Weights([k \in 1..r.nw |-> es[k]], r.T))
      dpsi == TLCEval([k \in 1..r.nw |-> DropOf(IF loose THEN Len(G.st) ELSE Small(psi[k]))])
      certificate ==
        /\ \A q \in 1..Len(S) : S[q].ok
        /\ {G.st[k] : k \in 1..Len(G.st)} = Bas!Configs(p.sh)
        /\ \A k \in 1..r.m : Len(vec[k]) = Len(G.st) /\ Eigen(G, vec[k], es[k])
        /\ \A a \in 1..r.m : \A b \in a..r.m : CxClose(VDot(vec[a], vec[b]), IF a = b THEN CxOne ELSE CxZero, FxNano(1))
        /\ FxLt(FxAdd(es[r.m], FxNano(100)), r.gap) /\ CountBelow(H, r.gap) = r.m
        /\ win = 1..r.nw /\ r.num <= r.m
        /\ (r.nw < r.m => FxLt(FxAdd(es[r.nw], FxMicro(1)), es[r.nw + 1]))
        /\ FxLt(FxNano(100000), BAbs(FxSub(FxSub(es[r.nw], es[1]), FxMul(r.cut, FxMul(KBFull, r.T)))))
      Ts == TLCEval([x \in {"dip", "emit", "nixs"} |->
               CASE x = "dip" -> TLCEval([k \in 1..3 |-> DipoleM(p, Dirs[k])])
                 [] x = "emit" -> TLCEval([k \in 1..3 |-> AdjointM(DipoleM(p, Dirs[k]))])
                 [] OTHER -> TLCEval([k \in 1..Len(p.qs) |-> NixsM(p, p.qs[k])])])
      Ops == TLCEval([x \in DOMAIN Ts |-> TLCEval([k \in 1..Len(Ts[x]) |-> OpOfMatrix(Ts[x][k])])])
      nrm == TLCEval([k \in 1..Len(p.qs) |-> RowSum(Ts["nixs"][k])])
      Of(name) == S[r.of[name]]
      phi(op, k) == TLCEval(ApplyOpR(op, psi[k], restr))
      \* one transition of one state: <<verified, value, tolerance>>; sg = -1: electron removal
      Line(space, op, k, x, w, sg, delta, size) ==
        LET f == phi(op, k)
            z == <<FxAdd(IF sg = 1 THEN w ELSE FxNeg(w), es[k]), IF sg = 1 THEN delta ELSE FxNeg(delta)>>
            g == VDot(In(space, f), x)
            d == FxAdd(FxMul(size, dpsi[k]), DropOf(Small(f)))
        IN  <<Solves(space, x, z, f), IF sg = 1 THEN FxNeg(g[2]) ELSE g[2], Bound(FxSqrt(Norm2(f)), d, delta)>>
      Two(it, k) == \* absorption, then emission
        LET f == phi(Ops["dip"][it.t], k)
            m == Dec(it.c[k].m)
            y == TLCEval(ApplyOpR(Ops["emit"][it.u], StateIn(Of("XAS"), m), restr))
            x == Dec(it.c[k].x)
            nf == FxSqrt(Norm2(f)) ny == FxSqrt(Norm2(y))
            dm == FxDiv(FxAdd(FxAdd(dpsi[k], DropOf(Small(f))), FxMul(FxMicro(15), nf)), r.delta)
            \* components of y below 10^-7, of y itself and relative to its weight
            d == FxAdd(FxAdd(dm, DropOf(Len(Of("RIXS").st))), FxMul(ny, DropOf(IF FxLt(FxOne, ny) THEN Len(Of("RIXS").st) ELSE 0)))
        IN  <<Solves(Of("XAS"), m, <<FxAdd(it.win, es[k]), r.delta>>, f) /\ Solves(Of("RIXS"), x, <<FxAdd(it.w, es[k]), r.drixs>>, y),
              FxNeg(VDot(In(Of("RIXS"), y), x)[2]), Bound(ny, d, r.drixs)>>
      Part(it, k) == \* sequence of contributions
        LET c == it.c[k] IN
        CASE it.fam = "PS" -> <<Line(Of("IPS"), AddOp(DOrb(p, it.t)), k, Dec(c.x), it.w, 1, r.delta, FxOne),
                                Line(Of("PS"), RemOp(DOrb(p, it.t)), k, Dec(c.y), it.w, -1, r.delta, FxOne)>>
          [] it.fam = "XPS" -> <<Line(Of("XPS"), RemOp(POrb(p, it.t)), k, Dec(c.x), it.w, -1, r.delta, FxOne)>>
          [] it.fam = "XAS" -> <<Line(Of("XAS"), Ops["dip"][it.t], k, Dec(c.x), it.w, 1, r.delta, FxOne)>>
          [] it.fam = "NIXS" -> <<Line(Of("NIXS"), Ops["nixs"][it.t], k, Dec(c.x), it.w, 1, r.dnixs, nrm[it.t])>>
          [] OTHER -> <<Two(it, k)>>
      Judged(it) == \* <<verified, thermal value, tolerance>>
        IF Len(it.c) # r.nw THEN <<FALSE, FxZero, FxOne>> ELSE
        LET ps == TLCEval([k \in 1..r.nw |-> TLCEval(Part(it, k))])
            all(j) == FxSum([k \in 1..r.nw |-> FxMul(wt[k], FxSum([m \in 1..Len(ps[k]) |-> ps[k][m][j]]))])
        IN  <<\A k \in 1..r.nw : \A m \in 1..Len(ps[k]) : ps[k][m][1], all(2), FxAdd(all(3), FxNano(100))>>
      V == TLCEval([q \in 1..Len(r.items) |-> TLCEval(Judged(r.items[q]))])
      mine(f) == {q \in 1..Len(r.items) : r.items[q].fam = f}
      \* NIXS: one common positive factor
      top == CHOOSE q \in mine("NIXS") : \A m \in mine("NIXS") : FxLe(V[m][2], V[q][2])
      lam == FxDiv(r.items[top].got, V[top][2])
      right(q) == FxLe(BAbs(FxSub(r.items[q].got, V[q][2])), V[q][3])
      rightN(q) == FxLe(BAbs(FxSub(r.items[q].got, FxMul(lam, V[q][2]))), FxMul(lam, FxAdd(V[q][3], FxDiv(FxMul(V[q][2], V[top][3]), V[top][2]))))
  IN  IF Ready(r) # "ok" THEN Ready(r)
      ELSE IF ~certificate THEN "certificate"
      ELSE IF ~(\A q \in 1..Len(r.items) : V[q][1]) THEN "certificate-of-a-spectrum"
      ELSE Clauses(<<
        <<"number-of-energies", Len(r.E) = r.num>>,
        <<"energies", Len(r.E) = r.num => \A k \in 1..r.num : FxIsReal(r.E[k]) /\ FxLe(BAbs(FxSub(r.E[k], es[k])), FxMicro(20))>>,
        <<"photoemission", \A q \in mine("PS") : right(q)>>,
        <<"core-photoemission", \A q \in mine("XPS") : right(q)>>,
        <<"absorption", \A q \in mine("XAS") : right(q)>>,
        <<"momentum-transfer", mine("NIXS") # {} /\ FxLt(FxNano(1), V[top][2]) => (FxLt(FxMicro(1), lam) /\ \A q \in mine("NIXS") : rightN(q))>>,
        <<"inelastic-scattering", \A q \in mine("RIXS") : right(q)>> >>)
J(r) == IF r.kind = "spectra" THEN SpectraRight(r) ELSE "unknown-record"
INSTANCE TraceBase WITH Judge <- J
=============================================================================

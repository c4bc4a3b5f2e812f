----------------------------- MODULE CoulombModel ---------------------------
(***************************************************************************)
(* Symmetries of the Slater-Condon operator, decided on all two-electron   *)
(* states (a two-body operator and its commutators with one-body operators *)
(* are determined there), and of spin-orbit coupling on all orbitals.      *)
(***************************************************************************)
EXTENDS Angular
CONSTANT Which
VARIABLES s, ok, UTab, Ls   \* UTab, Ls: the operators, tabulated once
Shells == CASE Which = "p" -> <<1>> [] Which = "d" -> <<2>> [] Which = "f" -> <<3>> [] OTHER -> <<1, 2>>
\* some generic integrals (exchange-symmetric blocks)
R5 == <<FxRat(73, 10), FxZero, FxRat(104, 10), FxRat(1, 3), FxRat(66, 10), FxZero, FxRat(5, 7)>>
Blocks == IF Which = "pd" THEN PDBlocks(R5, <<FxRat(19, 2), FxOne, FxRat(4, 3)>>, <<FxRat(89, 10), FxOne, FxRat(68, 10)>>, <<FxOne, FxRat(52, 10), FxOne, FxRat(3, 1)>>)
          ELSE << Block(Shells[1], Shells[1], Shells[1], Shells[1], R5) >>
All == SetOf(Shells)
Ladders == <<TLCEval(Lz(Shells, All)), TLCEval(Lp(Shells, All)), TLCEval(Lm(Shells, All)), TLCEval(Sz(Shells, All)), TLCEval(Sp(Shells, All)), TLCEval(Sm(Shells, All))>>
UApply(psi) == LinOn(LAMBDA x : UTab[x], psi)
Tol == FxPico(1)
Commutes(op, x) == StateClose(UApply(ApplyOp(op, (x :> CxOne))), ApplyOp(op, UTab[x]), Tol)
HermAt(x) == \A y \in DOMAIN UTab[x] : CxClose(Amp(UTab[y], x), CxConj(UTab[x][y]), Tol)
\* L.S has the eigenvalues l/2 and -(l+1)/2 and commutes with J
LSOn(o) == SOCOn(FxOne, o)
LSApply(f) == LinOn(LSOn, f)
Scal(f, a, b) == AddStates(LSApply(f), ScaleState(f, CxR(FxRat(a, b))), CxOne)
SOCRight(o) == StateClose(Scal(Scal((o :> CxOne), -o[1], 2), o[1] + 1, 2), Empty, Tol)
Up(o) == (IF o[3] < o[1] THEN (<<o[1], o[2], o[3] + 1>> :> CxR(LadderUp(o[1], o[3]))) ELSE Empty)
JUp(o) == AddStates(Up(o), IF o[2] = 0 THEN (<<o[1], 1, o[3]>> :> CxOne) ELSE Empty, CxOne)
SOCCommutes(o) == StateClose(LSApply(JUp(o)), LinOn(JUp, LSOn(o)), Tol)
Table == LET tab == OrbTab(Shells) prs == TLCEval(Pairs(tab)) bl == TLCEval(Blocks)
         IN  TLCEval([x \in {{p[1], p[2]} : p \in prs} |-> UOn(bl, Shells, tab, prs, x)])
Init == UTab = Table /\ Ls = Ladders /\ s \in DOMAIN UTab /\ ok = "todo"
Next == /\ ok = "todo" /\ UNCHANGED <<s, UTab, Ls>>
        /\ ok' = IF ~HermAt(s) THEN "not-hermitian"
                 ELSE IF \E k \in 1..6 : ~Commutes(Ls[k], s) THEN "symmetry"
                 ELSE IF \E i \in s : ~SOCRight(OrbTab(Shells)[i]) \/ ~SOCCommutes(OrbTab(Shells)[i]) THEN "soc"
                 ELSE "ok"
Right == ok \in {"todo", "ok"}
=============================================================================

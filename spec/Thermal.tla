------------------------------- MODULE Thermal ------------------------------
(***************************************************************************)
(* Canonical averages: weights exp(-E_i/kT), energies in eV, T in kelvin.  *)
(***************************************************************************)
EXTENDS Fx
KB == FxMul(FxRat(8617333, 1000000), FxRat(1, 100000))       \* 8.617333e-5
KBFull == FxAdd(KB, FxMul(FxRat(262, 1000000000), FxRat(1, 100000)))   \* 8.617333262e-5
RECURSIVE MinOf(_, _, _)
MinOf(es, k, m) == IF k > Len(es) THEN m ELSE MinOf(es, k + 1, IF FxLt(es[k], m) THEN es[k] ELSE m)
Weights(es, T) == LET e0 == MinOf(es, 1, es[1]) kT == FxMul(KBFull, T)
                      w == [k \in 1..Len(es) |-> FxExpNeg(FxDiv(FxSub(es[k], e0), kT))]
                      z == FxSum(w)
                  IN  [k \in 1..Len(es) |-> FxDiv(w[k], z)]
AverageW(w, os) == CxSum([k \in 1..Len(os) |-> CxScaleFx(os[k], w[k])])
Average(es, os, T) == AverageW(Weights(es, T), os)
=============================================================================

--------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command lines of the run commands: options, documented defaults,    *)
(* and which input is inconsistent.  A value is <<numerator, denominator>>.*)
(* What was given is a sequence of <<option, values>>.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
I(s) == [k \in 1..Len(s) |-> <<s[k], 1>>]
Q(s, d) == [k \in 1..Len(s) |-> <<s[k], d>>]
Lists == <<"ls", "nBaths", "nValBaths", "n0imps", "dnTols", "dnValBaths", "dnConBaths">>
Slater == <<"Fdd", "Fpp", "Fpd", "Gpd", "hField">>
Singles == <<"xi_2p", "xi_3d", "chargeTransferCorrection", "nPsiMax", "nPrintSlaterWeights", "tolPrintOccupation", "T", "energy_cut", "delta", "deltaRIXS", "deltaNIXS">>
Options == Lists \o Slater \o Singles
Default(o) ==
  CASE o = "ls" -> I(<<1, 2>>) [] o = "nBaths" -> I(<<0, 10>>) [] o = "nValBaths" -> I(<<0, 10>>) [] o = "n0imps" -> I(<<6, 8>>)
    [] o = "dnTols" -> I(<<0, 2>>) [] o = "dnValBaths" -> I(<<0, 2>>) [] o = "dnConBaths" -> I(<<0, 0>>)
    [] o = "Fdd" -> Q(<<75, 0, 99, 0, 66>>, 10) [] o = "Fpp" -> I(<<0, 0, 0>>) [] o = "Fpd" -> Q(<<89, 0, 68>>, 10) [] o = "Gpd" -> Q(<<0, 50, 0, 28>>, 10)
    [] o = "hField" -> Q(<<0, 0, 1>>, 10000) [] o = "xi_2p" -> Q(<<11629>>, 1000) [] o = "xi_3d" -> Q(<<96>>, 1000) [] o = "chargeTransferCorrection" -> Q(<<15>>, 10)
    [] o = "nPsiMax" -> I(<<5>>) [] o = "nPrintSlaterWeights" -> I(<<3>>) [] o = "tolPrintOccupation" -> Q(<<5>>, 10) [] o = "T" -> I(<<300>>) [] o = "energy_cut" -> I(<<10>>)
    [] o = "delta" -> Q(<<2>>, 10) [] o = "deltaRIXS" -> Q(<<50>>, 1000) [] o = "deltaNIXS" -> Q(<<100>>, 1000)
Given(g, o) == \E k \in 1..Len(g) : g[k][1] = o
Value(g, o) == IF Given(g, o) THEN g[CHOOSE k \in 1..Len(g) : g[k][1] = o][2] ELSE Default(o)
\* an integer option
Num(g, o, k) == Value(g, o)[k][1]
\* ---- input that must be refused
SameLens(g) == \A k \in 1..Len(Lists) : Len(Value(g, Lists[k])) = Len(Value(g, "ls"))
Shells(g) == 1..Len(Value(g, "ls"))
Consistent(mod, g) ==
  /\ SameLens(g) /\ Len(Value(g, "ls")) > 0
  /\ \A k \in Shells(g) : /\ Num(g, "nValBaths", k) <= Num(g, "nBaths", k)
                          /\ Num(g, "n0imps", k) \in 0..(2 * (2 * Num(g, "ls", k) + 1))
  /\ Len(Value(g, "Fdd")) = 5 /\ Len(Value(g, "Fpp")) = 3 /\ Len(Value(g, "Fpd")) = 3 /\ Len(Value(g, "Gpd")) = 4 /\ Len(Value(g, "hField")) = 3
  /\ \A k \in 1..Len(Singles) : Len(Value(g, Singles[k])) = 1
  /\ mod = "get_spectra_using_CF" => /\ Len(Value(g, "ls")) >= 2 /\ Num(g, "ls", 1) = 1 /\ Num(g, "ls", 2) = 2
                                     /\ Num(g, "nBaths", 2) \in {10, 20} /\ Num(g, "nValBaths", 2) = 10
\* input about which the property says nothing: numbers of holes the baths or the shell cannot take,
\* and a core shell that is not full (the double counting is not defined for it)
Min(a, b) == IF a < b THEN a ELSE b
Decided(g) == SameLens(g) =>
  /\ Num(g, "n0imps", 1) \notin 0..5
  /\ \A k \in Shells(g) : LET n0 == Num(g, "n0imps", k) dv == Num(g, "dnValBaths", k) dc == Num(g, "dnConBaths", k) tol == Num(g, "dnTols", k)
                               full == 2 * (2 * Num(g, "ls", k) + 1) IN
       /\ dv >= 0 /\ dc >= 0 /\ tol >= 0
       /\ Num(g, "nValBaths", k) <= Num(g, "nBaths", k) => /\ dv <= Num(g, "nValBaths", k) /\ dc <= Num(g, "nBaths", k) - Num(g, "nValBaths", k)
       /\ n0 \in 0..full => n0 + Min(tol, dv) <= full /\ n0 - Min(tol, dc) >= 0
\* ---- what the calculation has to work with
ShellsOf(g) == [k \in Shells(g) |-> [l |-> Num(g, "ls", k), nb |-> Num(g, "nBaths", k), nv |-> Num(g, "nValBaths", k), dv |-> Num(g, "dnValBaths", k),
                                     dc |-> Num(g, "dnConBaths", k), tol |-> Num(g, "dnTols", k), n0 |-> Num(g, "n0imps", k)]]
=============================================================================

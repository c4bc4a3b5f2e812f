------------------------------- MODULE CliGen -------------------------------
\* Command lines: at most two options differ from the defaults (bath counts may come with their partners).
EXTENDS Cli, TLC, Json
VARIABLES s, done
Alt(o) ==
  CASE o = "ls" -> {I(<<1>>), I(<<1, 2, 3>>), I(<<2, 2, 1>>)}
    [] o = "nBaths" -> {I(<<0, 20>>), I(<<0, 12>>), I(<<2, 10>>), I(<<0, 9>>), I(<<0>>), I(<<0, 10, 0>>)}
    [] o = "nValBaths" -> {I(<<0, 9>>), I(<<0, 4>>), I(<<0, 11>>), I(<<1, 10>>), I(<<0>>), I(<<0, 10, 0>>)}
    [] o = "n0imps" -> {I(<<6, 9>>), I(<<6, 10>>), I(<<6, 1>>), I(<<6, 0>>), I(<<7, 8>>), I(<<6, 11>>), I(<<6, 0 - 1>>), I(<<0 - 1, 8>>), I(<<6>>), I(<<6, 8, 1>>)}
    [] o = "dnTols" -> {I(<<0, 0>>), I(<<0, 1>>), I(<<1, 2>>), I(<<0>>), I(<<0, 2, 2>>)}
    [] o = "dnValBaths" -> {I(<<0, 0>>), I(<<0, 1>>), I(<<0>>), I(<<0, 2, 0>>)}
    [] o = "dnConBaths" -> {I(<<0, 1>>), I(<<0>>), I(<<0, 0, 0>>)}
    [] o = "Fdd" -> {Q(<<71, 3, 92, 1, 58>>, 10), Q(<<7, 0, 9, 0>>, 1), Q(<<7, 0, 9, 0, 6, 0>>, 1)}
    [] o = "Fpp" -> {Q(<<11, 2, 37>>, 10), Q(<<0, 0>>, 1), Q(<<0, 0, 0, 0>>, 1)}
    [] o = "Fpd" -> {Q(<<83, 1, 61>>, 10), Q(<<8, 0>>, 1), Q(<<8, 0, 6, 0>>, 1)}
    [] o = "Gpd" -> {Q(<<2, 46, 3, 26>>, 10), Q(<<0, 5, 0>>, 1), Q(<<0, 5, 0, 2, 0>>, 1)}
    [] o = "hField" -> {Q(<<3, 0 - 2, 5>>, 10000000), Q(<<0 - 3, 2, 5>>, 100), Q(<<0, 1>>, 100), Q(<<0, 0, 1, 0>>, 100)}
    [] o = "xi_2p" -> {Q(<<9859>>, 1000), Q(<<0>>, 1)} [] o = "xi_3d" -> {Q(<<79>>, 1000), Q(<<0>>, 1), Q(<<379>>, 100000)}
    [] o = "chargeTransferCorrection" -> {Q(<<0 - 7>>, 10), Q(<<0>>, 1)} [] o = "nPsiMax" -> {I(<<1>>), I(<<13>>), I(<<60>>)} [] o = "nPrintSlaterWeights" -> {I(<<0>>), I(<<1>>), I(<<2>>)}
    [] o = "tolPrintOccupation" -> {Q(<<1>>, 10), Q(<<85>>, 100), Q(<<1>>, 1000)} [] o = "T" -> {I(<<10>>), Q(<<12345>>, 10), Q(<<5>>, 10)} [] o = "energy_cut" -> {I(<<3>>), Q(<<5>>, 10)}
    [] o = "delta" -> {Q(<<31>>, 100), Q(<<5>>, 1000)} [] o = "deltaRIXS" -> {Q(<<11>>, 1000), Q(<<3>>, 10)} [] o = "deltaNIXS" -> {Q(<<13>>, 100), Q(<<2>>, 10)}
Ix(o) == CHOOSE k \in 1..Len(Options) : Options[k] = o
Given1 == UNION {{<< <<Options[k], v>> >> : v \in Alt(Options[k])} : k \in 1..Len(Options)}
Given2 == {g \o h : g \in Given1, h \in Given1}
\* shells in the other order, conduction baths, several changes that agree with each other
Presets == { << <<"nBaths", I(<<0, 20>>)>>, <<"dnConBaths", I(<<0, 1>>)>> >>,
             << <<"nBaths", I(<<0, 20>>)>>, <<"nValBaths", I(<<0, 10>>)>>, <<"dnConBaths", I(<<0, 1>>)>>, <<"dnValBaths", I(<<0, 1>>)>>, <<"n0imps", I(<<6, 7>>)>> >>,
             << <<"nBaths", I(<<0, 0>>)>>, <<"nValBaths", I(<<0, 0>>)>>, <<"dnValBaths", I(<<0, 0>>)>> >>,
             << <<"nBaths", I(<<2, 3>>)>>, <<"nValBaths", I(<<1, 2>>)>>, <<"dnValBaths", I(<<1, 1>>)>>, <<"dnConBaths", I(<<0, 1>>)>>, <<"n0imps", I(<<6, 3>>)>> >>,
             << <<"ls", I(<<1>>)>>, <<"nBaths", I(<<0>>)>> >>, << <<"n0imps", I(<<10, 6>>)>> >>,
             << <<"ls", I(<<1, 2, 0>>)>>, <<"nBaths", I(<<0, 10, 0>>)>>, <<"nValBaths", I(<<0, 10, 0>>)>> >> }
\* inconsistent in one place while everything else (sums, other lists, other shells) fits
Bad == {<<a, b>> : a \in {<<"nBaths", I(v)>> : v \in {<<4, 10>>, <<1, 12>>, <<0, 20>>, <<3, 9>>}}, b \in {<<"nValBaths", I(v)>> : v \in {<<6, 8>>, <<2, 10>>, <<1, 10>>, <<0, 21>>, <<4, 8>>}}}
   \cup {<<a, b>> : a \in {<<"nBaths", I(v)>> : v \in {<<0>>, <<0, 10, 0>>}}, b \in {<<"nValBaths", I(v)>> : v \in {<<0>>, <<0, 10, 0>>}}}
   \cup {<<a, b>> : a \in {<<"n0imps", I(v)>> : v \in {<<6>>, <<6, 8, 0>>}}, b \in {<<"dnTols", I(v)>> : v \in {<<0>>, <<0, 2, 0>>}}}
   \cup {<<a, b>> : a \in {<<"Fdd", Q(v, 1)>> : v \in {<<7, 0, 9>>, <<7, 0, 9, 0>>}}, b \in {<<"Fpp", Q(v, 1)>> : v \in {<<0, 0, 0, 0, 0>>, <<0, 0, 0, 0>>}}}
   \cup {<<a, b>> : a \in {<<"Fpd", Q(v, 1)>> : v \in {<<8, 0, 6, 0>>, <<8, 0>>}}, b \in {<<"Gpd", Q(v, 1)>> : v \in {<<0, 5, 0>>, <<0, 5, 0, 2, 0>>}}}
   \cup {<< <<"n0imps", I(v)>> >> : v \in {<<8, 6>>, <<10, 4>>, <<7, 7>>, <<6, 14>>, <<11, 8>>, <<6, 12>>}}
   \cup {<<a, b>> : a \in {<<"n0imps", I(<<6, 11>>)>>}, b \in {<<"nBaths", I(<<0, 20>>)>>}}
Init == /\ done = FALSE
        /\ \E m \in {"get_spectra", "get_spectra_using_CF"} : \E g \in {<<>>} \cup Given1 \cup Presets \cup Bad \cup {q \in Given2 : Ix(q[1][1]) < Ix(q[2][1])} :
             /\ Decided(g)
             /\ s = [mod |-> m, opts |-> g, pre |-> g \in (Presets \cup Bad), ok |-> Consistent(m, g), all |-> [k \in 1..Len(Options) |-> <<Options[k], Value(g, Options[k])>>]]
Next == ~done /\ done' = TRUE /\ s' = s /\ PrintT(<<"SCN", ToJson(s)>>)
=============================================================================

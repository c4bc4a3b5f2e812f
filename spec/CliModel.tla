------------------------------ MODULE CliModel ------------------------------
(***************************************************************************)
(* A command line is read, checked and handed to the calculation, which    *)
(* looks every shell up in every table.  Whatever is given: accepted input *)
(* is complete, nothing of it is dropped, and the shells make sense; the   *)
(* defaults are accepted; and an accepted configuration has a basis state. *)
(* Flaw "zip": the check of the list lengths covers the bath lists only.   *)
(***************************************************************************)
EXTENDS Cli, TLC
CONSTANT Flaw
VARIABLES given, stage, tables
Small == UNION {[1..n -> 0..2] : n \in 1..3}
Touch == {"n0imps", "dnTols", "dnValBaths", "dnConBaths", "nBaths", "nValBaths", "ls"}
Init == /\ stage = "read" /\ tables = <<>>
        /\ \E a, b \in Touch : \E v, w \in Small : given = IF a = b THEN << <<a, I(v)>> >> ELSE << <<a, I(v)>>, <<b, I(w)>> >>
Distinct(s) == Cardinality({s[k] : k \in 1..Len(s)}) = Len(s)
LooseCheck(g) == /\ Len(Value(g, "nBaths")) = Len(Value(g, "ls")) /\ Len(Value(g, "nValBaths")) = Len(Value(g, "ls"))
                 /\ \A k \in Shells(g) : Num(g, "nValBaths", k) <= Num(g, "nBaths", k)
                 /\ \A k \in Shells(g) \cap (1..Len(Value(g, "n0imps"))) : Num(g, "n0imps", k) \in 0..(2 * (2 * Num(g, "ls", k) + 1))
Passes(g) == Distinct(Value(g, "ls")) /\ IF Flaw = "zip" THEN LooseCheck(g) ELSE Consistent("get_spectra", g)
\* a table: shell -> number, as far as both lists go
Zip(g, o) == LET m == IF Len(Value(g, o)) < Len(Value(g, "ls")) THEN Len(Value(g, o)) ELSE Len(Value(g, "ls"))
             IN  [l \in {Num(g, "ls", k) : k \in 1..m} |-> Num(g, o, CHOOSE k \in 1..m : Num(g, "ls", k) = l)]
Check == stage = "read" /\ stage' = (IF Passes(given) THEN "accepted" ELSE "refused") /\ UNCHANGED <<given, tables>>
Hand == stage = "accepted" /\ stage' = "computing" /\ tables' = [k \in 2..Len(Lists) |-> Zip(given, Lists[k])] /\ UNCHANGED given
Next == Check \/ Hand
Total == stage = "computing" => \A k \in 2..Len(Lists) : DOMAIN tables[k] = {Num(given, "ls", j) : j \in Shells(given)}
Nothing == stage = "computing" => \A k \in 2..Len(Lists) : Len(Value(given, Lists[k])) = Cardinality(DOMAIN tables[k])
Sense == stage = "computing" => \A l \in DOMAIN tables[2] : tables[3][l] <= tables[2][l] /\ tables[4][l] \in 0..(2 * (2 * l + 1))
\* the initial occupation with full valence baths and empty conduction baths fits into its shell
Exists == stage = "computing" => \A l \in DOMAIN tables[2] : LET n == tables[4][l] + tables[3][l] IN n >= 0 /\ n <= 2 * (2 * l + 1) + tables[2][l]
ASSUME Consistent("get_spectra", <<>>) /\ Consistent("get_spectra_using_CF", <<>>)
=============================================================================

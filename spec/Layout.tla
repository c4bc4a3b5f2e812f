------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Numbering of spin-orbitals.  A system is a sequence of groups           *)
(* [ls |-> sequence of angular momenta, nb |-> number of bath orbitals,    *)
(*  tup |-> the group is written as a tuple of angular momenta].           *)
(* Labels: <<"imp", l, s, m>> and <<"bath", ls, tup, b>>.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
ShellLabels(l) == [k \in 1..(2 * (2 * l + 1)) |->
                     <<"imp", l, (k - 1) \div (2 * l + 1), ((k - 1) % (2 * l + 1)) - l>>]
ImpLabels(sys) == Concat([g \in 1..Len(sys) |-> Concat([k \in 1..Len(sys[g].ls) |-> ShellLabels(sys[g].ls[k])])])
BathLabels(sys) == Concat([g \in 1..Len(sys) |-> [b \in 1..sys[g].nb |-> <<"bath", sys[g].ls, sys[g].tup, b - 1>>]])
\* the list of all labels: the index of a label is its position, from 0
Labels(sys) == ImpLabels(sys) \o BathLabels(sys)
NOrb(sys) == Len(Labels(sys))
IndexIn(lab, seq) == IF \E k \in 1..Len(seq) : seq[k] = lab THEN (CHOOSE k \in 1..Len(seq) : seq[k] = lab) - 1 ELSE -1
Index(sys, lab) == IndexIn(lab, Labels(sys))
Imp(sys, l, s, m) == Index(sys, <<"imp", l, s, m>>)
\* a second, arithmetic definition for single-l groups (cross-checked in LayoutModel)
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
ImpFormula(ls, g, s, m) == SumTo([k \in 1..Len(ls) |-> 2 * (2 * ls[k] + 1)], g - 1) + s * (2 * ls[g] + 1) + m + ls[g]
=============================================================================

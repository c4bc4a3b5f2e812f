---------------------------- MODULE LayoutModel -----------------------------
\* Systems are built group by group; the numbering is a bijection at every stage, and adding
\* a group never renumbers the impurity orbitals before it.
EXTENDS Layout
CONSTANTS Ls, MaxB, MaxG
VARIABLES sys, prev
Used == UNION {{sys[g].ls[k] : k \in 1..Len(sys[g].ls)} : g \in 1..Len(sys)}
Init == sys = <<>> /\ prev = <<>>
Grp == {<<l>> : l \in Ls} \cup {<<p[1], p[2]>> : p \in {q \in Ls \X Ls : q[1] # q[2]}}
Next == /\ Len(sys) < MaxG
        /\ \E ls \in Grp, b \in 0..MaxB :
             /\ \A k \in 1..Len(ls) : ls[k] \notin Used
             /\ sys' = Append(sys, [ls |-> ls, nb |-> b, tup |-> Len(ls) > 1])
             /\ prev' = sys
L == Labels(sys)
Bijection == \A j, k \in 1..Len(L) : L[j] = L[k] => j = k
Inverse == \A k \in 1..Len(L) : Index(sys, L[k]) = k - 1
ImpFirst == \A j, k \in 1..Len(L) : L[j][1] = "imp" /\ L[k][1] = "bath" => j < k
Ascending == \A j, k \in 1..Len(L) : L[j][1] = "imp" /\ L[k][1] = "imp" /\ L[j][2] = L[k][2] =>
               (j < k <=> (L[j][3] < L[k][3] \/ (L[j][3] = L[k][3] /\ L[j][4] < L[k][4])))
Stable == \A k \in 1..Len(ImpLabels(prev)) : Labels(sys)[k] = Labels(prev)[k]
Formula == (\A g \in 1..Len(sys) : Len(sys[g].ls) = 1) =>
             \A g \in 1..Len(sys) : LET l == sys[g].ls[1] IN \A s \in 0..1, m \in (-l)..l :
                Imp(sys, l, s, m) = ImpFormula([k \in 1..Len(sys) |-> sys[k].ls[1]], g, s, m)
=============================================================================

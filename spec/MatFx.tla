-------------------------------- MODULE MatFx -------------------------------
\* Sparse recorded matrices: [shape, e |-> <<<<i, j, re, im>>, ...>>], indices from 0.
EXTENDS Fx, FiniteSets, TLC
MEntries(m) ==
  LET rows == TLCEval({m.e[k][1] : k \in 1..Len(m.e)})
      row == TLCEval([i \in rows |-> SelectSeq(m.e, LAMBDA e : e[1] = i)])
  IN  TLCEval([p \in {<<m.e[k][1], m.e[k][2]>> : k \in 1..Len(m.e)} |->
                 LET k == CHOOSE q \in 1..Len(row[p[1]]) : row[p[1]][q][2] = p[2]
                 IN  <<row[p[1]][k][3], row[p[1]][k][4]>>])
MAt(f, i, j) == IF <<i, j>> \in DOMAIN f THEN f[<<i, j>>] ELSE CxZero
\* sparse functions <<i,j>> -> value agree
MClose(f, g, tol) == \A p \in DOMAIN f \cup DOMAIN g : CxClose(MAt(f, p[1], p[2]), MAt(g, p[1], p[2]), tol)
RECURSIVE MSumR(_, _, _)
MAdd(f, g) == [p \in DOMAIN f \cup DOMAIN g |-> CxAdd(MAt(f, p[1], p[2]), MAt(g, p[1], p[2]))]
MSumR(ms, k, acc) == IF k > Len(ms) THEN acc ELSE MSumR(ms, k + 1, MAdd(acc, ms[k]))
MSum(ms) == MSumR(ms, 1, [p \in {} |-> CxZero])
=============================================================================

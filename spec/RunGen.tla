------------------------------- MODULE RunGen -------------------------------
\* The operators of the runs in the file of questions, written out for the drivers.
EXTENDS Run, TraceData
VARIABLES i, done
Entries(M) == {<<q[1], q[2], M[q][1], M[q][2]>> : q \in {x \in DOMAIN M : ~CxIsZero(M[x])}}
Answer(p) ==
  LET W == TwoTab(p)
  IN  [one |-> Entries(OneM(p)),
       two |-> UNION {{<<Lowest(s), Highest(s), q[2], q[1], W[q][s][1], W[q][s][2]>> : s \in DOMAIN W[q]} : q \in DOMAIN W},
       dip |-> [k \in 1..3 |-> Entries(DipoleM(p, Dirs[k]))],
       nixs |-> [k \in 1..Len(p.qs) |-> Entries(NixsM(p, p.qs[k]))],
       restr |-> Want(p.sh), basis |-> Bas!Configs(p.sh), n |-> NAll(p.sh),
       d0 |-> DOrb(p, 1), p0 |-> POrb(p, 1)]
Init == i \in 1..NTrace /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ JsonSerialize(IOEnv.OUT \o ToString(i) \o ".json", Answer(Trace[i].par))
=============================================================================

------------------------------ MODULE TraceData -----------------------------
\* The recorded behaviour of the real code: one JSON record per line.
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
NTrace == Len(Trace)
Has(r, f) == f \in DOMAIN r
\* first failing clause of a sequence of <<name, holds>> pairs, or "ok"
RECURSIVE FirstBad(_, _)
FirstBad(cl, k) == IF k > Len(cl) THEN "ok" ELSE IF cl[k][2] THEN FirstBad(cl, k + 1) ELSE cl[k][1]
Clauses(cl) == FirstBad(cl, 1)
=============================================================================

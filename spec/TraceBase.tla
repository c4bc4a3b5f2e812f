------------------------------ MODULE TraceBase -----------------------------
(***************************************************************************)
(* Frame of every conformance module: TLC judges each record of the trace. *)
(* Judge(rec) is "ok" or names the clause of the specification that the    *)
(* record contradicts.  One behaviour per record, so workers share the     *)
(* records between them.                                                   *)
(***************************************************************************)
EXTENDS TraceData
CONSTANT Judge(_)
VARIABLES i, verdict
Init == i \in 1..NTrace /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ i' = i
        /\ verdict' = (IF Has(Trace[i], "err") /\ Trace[i].err # "" THEN "raised" ELSE Judge(Trace[i]))
        /\ (verdict' = "ok" \/ PrintT(<<"REJECT", i, verdict'>>))
Accepted == verdict \in {"todo", "ok"}
=============================================================================

----------------------------- MODULE DriverModel ----------------------------
(***************************************************************************)
(* A run on NP processes.  Every stage that computes is collective (no     *)
(* process leaves it before all have entered); only the first process      *)
(* opens the file, writes and closes.  Whatever the interleaving: no       *)
(* deadlock, the file is written once per stage, while open, by the first  *)
(* process only, and closed at the end.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NP, Flaw
VARIABLES pc, file, log
Stages == <<"eigen", "PS", "XPS", "NIXS", "XAS", "RIXS">>
P == 0..(NP - 1)
Entered(p, k) == pc[p][1] > k \/ (pc[p][1] = k /\ pc[p][2] # "idle")
Init == /\ pc = [p \in P |-> <<1, "idle">>] /\ file = "closed" /\ log = <<>>
Writer(p) == IF Flaw = "all-write" THEN TRUE ELSE p = 0
Enter(p) == /\ pc[p][1] <= Len(Stages) /\ pc[p][2] = "idle" /\ pc' = [pc EXCEPT ![p][2] = "in"] /\ UNCHANGED <<file, log>>
Leave(p) == /\ pc[p][1] <= Len(Stages) /\ pc[p][2] = "in" /\ \A q \in P : Entered(q, pc[p][1])
            /\ pc' = [pc EXCEPT ![p][2] = "computed"] /\ UNCHANGED <<file, log>>
Store(p) == /\ pc[p][1] <= Len(Stages) /\ pc[p][2] = "computed"
            /\ pc' = [pc EXCEPT ![p] = <<pc[p][1] + 1, "idle">>]
            /\ IF ~Writer(p) THEN UNCHANGED <<file, log>>
               ELSE /\ file' = IF pc[p][1] = 1 THEN "open" ELSE IF pc[p][1] = Len(Stages) \/ (Flaw = "early-close" /\ pc[p][1] = 4) THEN "closed" ELSE file
                    /\ log' = Append(log, <<p, Stages[pc[p][1]], file>>)
Done == /\ \A p \in P : pc[p][1] > Len(Stages) /\ UNCHANGED <<pc, file, log>>
Next == (\E p \in P : Enter(p) \/ Leave(p) \/ Store(p)) \/ Done
FirstOnly == \A k \in 1..Len(log) : log[k][1] = 0
Once == \A a, b \in 1..Len(log) : a # b => log[a][2] # log[b][2]
WhileOpen == \A k \in 1..Len(log) : (log[k][2] = "eigen") <=> (log[k][3] = "closed")
Complete == (\A p \in P : pc[p][1] > Len(Stages)) => Len(log) = Len(Stages) /\ file = "closed"
=============================================================================

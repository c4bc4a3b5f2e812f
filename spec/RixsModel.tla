------------------------------ MODULE RixsModel -----------------------------
(***************************************************************************)
(* The loops of a RIXS calculation with their shared stores: one memo per  *)
(* incoming operator, one per outgoing operator, a column store for states *)
(* with a core hole and one for states without.  An entry must depend on   *)
(* its own (state, incoming operator, energy, outgoing operator) only, for *)
(* every division of the energies over processes.  Flaw "sharedOut" (one   *)
(* memo for all outgoing operators) and "sharedIn" are designs the model   *)
(* rejects.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS P, NIn, NOut, NW, NS, Flaw
Ranks == 1..P
VARIABLES content, owner, k, memoIn, memoOut, res
vars == <<content, owner, k, memoIn, memoOut, res>>
PS == 1..2
Entries == [c : 1..NIn, s : 1..NS, w : 1..NW, o : 1..NOut]
\* order of the loops
Seq4 == LET total == NIn * NS * NW * NOut IN
        [q \in 1..total |-> [c |-> 1 + ((q - 1) \div (NS * NW * NOut)), s |-> 1 + (((q - 1) \div (NW * NOut)) % NS),
                             w |-> 1 + (((q - 1) \div NOut) % NW), o |-> 1 + ((q - 1) % NOut)]]
Init == /\ content \in [1..NS -> SUBSET PS \ {{}}] /\ owner \in [1..NW -> Ranks] /\ k = [r \in Ranks |-> 1]
        /\ memoIn = [r \in Ranks |-> {}] /\ memoOut = [r \in Ranks |-> {}] /\ res = [r \in Ranks |-> {}]
KeyIn(e) == IF Flaw = "sharedIn" THEN 0 ELSE e.c
KeyOut(e) == IF Flaw = "sharedOut" THEN 0 ELSE e.o
\* through a memo: set of <<key, product state, result>>; result = <<operator, product state>>
Use(memo, key, oper, S) ==
  LET new == {<<key, s, <<oper, s>>>> : s \in {x \in S : ~\E m \in memo : m[1] = key /\ m[2] = x}}
  IN  [memo |-> memo \cup new, out |-> {m[3] : m \in {n \in memo \cup new : n[1] = key /\ n[2] \in S}}]
Step(r) ==
  /\ k[r] <= Len(Seq4)
  /\ LET e == Seq4[k[r]]
         mi == Use(memoIn[r], KeyIn(e), <<"in", e.c>>, content[e.s])
         mid == {<<e.w, x>> : x \in mi.out}        \* the solver mixes in the energy
         mo == Use(memoOut[r], KeyOut(e), <<"out", e.o>>, mid)
     IN  /\ memoIn' = [memoIn EXCEPT ![r] = mi.memo]
         /\ IF owner[e.w] = r
            THEN memoOut' = [memoOut EXCEPT ![r] = mo.memo] /\ res' = [res EXCEPT ![r] = @ \cup {<<e, mo.out>>}]
            ELSE UNCHANGED <<memoOut, res>>
  /\ k' = [k EXCEPT ![r] = @ + 1] /\ UNCHANGED <<content, owner>>
Next == \E r \in Ranks : Step(r)
Want(e) == {<< <<"out", e.o>>, <<e.w, << <<"in", e.c>>, s>>>>>> : s \in content[e.s]}
OwnOnly == \A r \in Ranks : \A x \in res[r] : x[2] = Want(x[1])
Complete == (\A r \in Ranks : k[r] > Len(Seq4)) =>
              \A e \in Entries : Cardinality({x \in UNION {res[r] : r \in Ranks} : x[1] = e}) = 1
=============================================================================

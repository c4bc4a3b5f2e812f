------------------------------ MODULE RunModel ------------------------------
(***************************************************************************)
(* The course of a calculation, in numbers of electrons.  A ground         *)
(* configuration is a declared one; the Hamiltonian moves electrons        *)
(* between a shell and its baths; a transition removes, adds or moves one  *)
(* electron; the excited state evolves inside the occupation limits.       *)
(* Scope of the end-to-end comparison: if the d shell has no conduction    *)
(* bath electrons (dc = 0), every transition of every declared             *)
(* configuration, and every emission that follows an absorption, ends      *)
(* inside the limits, so the limits bound the evolution and never the      *)
(* transition itself.  Electrons are conserved by the evolution.           *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS MaxB, Flaw
VARIABLES d, ph, p, q, x, v, c \* shell; phase; 2p, p bath, 3d, valence, conduction electrons
vars == <<d, ph, p, q, x, v, c>>
Shells == {s \in [nb : 0..MaxB, nv : 0..MaxB, dv : 0..2, dc : 0..(IF Flaw = "conduction" THEN 1 ELSE 0), tol : 0..2, n0 : 0..10, pb : 0..1] :
             /\ s.nv <= s.nb /\ s.dv <= s.nv /\ s.dc <= s.nb - s.nv
             /\ s.n0 + s.dv <= 10 /\ s.n0 - s.dc >= 0}
Dist(a, b) == IF a < b THEN b - a ELSE a - b
Declared(s, a, h, e) == h \in 0..s.dv /\ e \in 0..s.dc /\ Dist(h, e) <= s.tol /\ a = s.n0 + h - e
Limits == /\ x \in (d.n0 - 1)..(d.n0 + d.tol + 1)
          /\ v \in (d.nv - d.dv)..d.nv
          /\ c \in 0..d.dc
Init == /\ d \in Shells /\ ph = "ground" /\ p = 6 /\ q = d.pb
        /\ \E h \in 0..2, e \in 0..1 : Declared(d, d.n0 + h - e, h, e) /\ x = d.n0 + h - e /\ v = d.nv - h /\ c = e
\* hopping; the primed occupations must be declared (ground) or inside the limits (excited)
Hop == /\ \/ (v > 0 /\ x < 10 /\ v' = v - 1 /\ x' = x + 1 /\ UNCHANGED <<p, q, c>>)
          \/ (v < d.nv /\ x > 0 /\ v' = v + 1 /\ x' = x - 1 /\ UNCHANGED <<p, q, c>>)
          \/ (x > 0 /\ c < d.nb - d.nv /\ c' = c + 1 /\ x' = x - 1 /\ UNCHANGED <<p, q, v>>)
          \/ (c > 0 /\ x < 10 /\ c' = c - 1 /\ x' = x + 1 /\ UNCHANGED <<p, q, v>>)
          \/ (ph # "ground" /\ q > 0 /\ p < 6 /\ q' = q - 1 /\ p' = p + 1 /\ UNCHANGED <<x, v, c>>)
          \/ (ph # "ground" /\ q < d.pb /\ p > 0 /\ q' = q + 1 /\ p' = p - 1 /\ UNCHANGED <<x, v, c>>)
       /\ UNCHANGED <<d, ph>>
       /\ IF ph = "ground" THEN Declared(d, x', d.nv - v', c') ELSE Limits'
Shift(to, dp, dx) == /\ p + dp \in 0..6 /\ x + dx \in 0..10 /\ p' = p + dp /\ x' = x + dx /\ ph' = to /\ UNCHANGED <<d, q, v, c>>
Transition == \/ ph = "ground" /\ (Shift("IPS", 0, 1) \/ Shift("PS", 0, -1) \/ Shift("XPS", -1, 0) \/ Shift("NIXS", 0, 0) \/ Shift("XAS", -1, 1))
              \/ ph = "XAS" /\ Shift("RIXS", 1, -1)
Next == Hop \/ Transition
Inside == ph # "ground" => Limits
Extra == [ground |-> 0, IPS |-> 1, PS |-> -1, XPS |-> -1, NIXS |-> 0, XAS |-> 0, RIXS |-> 0]
Conserved == p + q + x + v + c = 6 + d.pb + d.n0 + d.nv + Extra[ph]
CoreHole == ph \in {"ground", "IPS", "PS", "NIXS"} => p + q = 6 + d.pb
=============================================================================

------------------------------ MODULE ReprModel -----------------------------
\* Chains of conversions: whatever path is taken, the value is the canonical one.
EXTENDS Repr
CONSTANTS MaxN
VARIABLES n, occ, form, val
vars == <<n, occ, form, val>>
Init == /\ n \in 1..MaxN /\ occ \in SUBSET (0..(n - 1))
        /\ form \in Forms /\ val = Enc(form, n, occ)
Convert(f) == /\ f # form /\ form' = f
              /\ val' = Enc(f, n, Dec(form, n, val))
              /\ UNCHANGED <<n, occ>>
Next == \E f \in Forms : Convert(f)
Canonical == val = Enc(form, n, occ)
Lossless == Dec(form, n, val) = occ
Injective == \A o \in SUBSET (0..(n - 1)) : Enc(form, n, o) = val => o = occ
=============================================================================

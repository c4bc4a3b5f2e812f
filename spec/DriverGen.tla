------------------------------ MODULE DriverGen -----------------------------
\* Levels in units of the energy window (hundredths), its size in kT, the temperature and the run command.
EXTENDS Integers, Sequences, TLC, Json
VARIABLES s, done
Lv == {0, 50, 99, 101, 300}
Init == /\ done = FALSE
        /\ \E n \in 1..4 : \E f \in [1..n -> Lv] : \E c \in {1, 3, 10} : \E T \in {5, 300, 2000} : \E m \in {"get_spectra", "get_spectra_using_CF"} :
             /\ f[1] = 0 /\ \A k \in 1..(n - 1) : f[k] <= f[k + 1]
             /\ s = [levels |-> f, cut |-> c, T |-> T, mod |-> m]
Next == ~done /\ done' = TRUE /\ s' = s /\ PrintT(<<"SCN", ToJson(s)>>)
=============================================================================

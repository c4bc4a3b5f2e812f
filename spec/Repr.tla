-------------------------------- MODULE Repr --------------------------------
(***************************************************************************)
(* The five representations of a product state of n spin-orbitals.         *)
(* Abstractly a product state is the set of occupied orbitals, in 0..n-1.  *)
(***************************************************************************)
EXTENDS BigInt, FiniteSets
Forms == {"tuple", "int", "str", "bitarray", "bytes"}

SortedSeq(n, s) == SelectSeq([k \in 1..n |-> k - 1], LAMBDA x : x \in s)
Bits(n, s) == [k \in 1..n |-> IF (k - 1) \in s THEN 1 ELSE 0]
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
NBytes(n) == (n + 7) \div 8
RECURSIVE ByteAt(_, _, _)
ByteAt(s, base, j) == IF j > 7 THEN 0 ELSE (IF base + j \in s THEN Pow2(7 - j) ELSE 0) + ByteAt(s, base, j + 1)

\* the orbitals read as one binary number, orbital 0 first: eight binary digits at a time
RECURSIVE IntOf(_, _, _, _)
IntOf(n, s, k, acc) == IF k > NBytes(n) THEN acc
                       ELSE IntOf(n, s, k + 1, BAdd(BMul(acc, BInt(256)), BInt(ByteAt(s, 8 * k - 8 - (8 * NBytes(n) - n), 0))))

Enc(form, n, s) ==
  CASE form = "tuple"    -> SortedSeq(n, s)
    [] form = "int"      -> IntOf(n, s, 1, BZero)
    [] form = "str"      -> [k \in 1..n |-> 48 + Bits(n, s)[k]]        \* character codes
    [] form = "bitarray" -> Bits(n, s)
    [] form = "bytes"    -> [k \in 1..NBytes(n) |-> ByteAt(s, 8 * (k - 1), 0)]

\* decoding, defined on its own (not as the inverse of Enc)
BitOfBig(v, k) == BMod(BDiv(v, BPow(BInt(2), k)), BInt(2)) # BZero
Dec(form, n, v) ==
  CASE form = "tuple"    -> {v[k] : k \in 1..Len(v)}
    [] form = "int"      -> {i \in 0..(n - 1) : BitOfBig(v, n - 1 - i)}
    [] form = "str"      -> {k - 1 : k \in {j \in 1..Len(v) : v[j] = 49}}
    [] form = "bitarray" -> {k - 1 : k \in {j \in 1..Len(v) : v[j] = 1}}
    [] form = "bytes"    -> {i \in 0..(n - 1) : (v[i \div 8 + 1] \div Pow2(7 - (i % 8))) % 2 = 1}
=============================================================================

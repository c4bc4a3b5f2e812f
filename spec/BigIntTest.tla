----------------------------- MODULE BigIntTest -----------------------------
EXTENDS BigInt, TLC
\* a deterministic pool of operands of very different sizes
P(k) == BSub(BMul(BPow(BInt(7 + k), 3 * k), BInt(k - 5)), BInt(1234567 * (k % 3)))
Pool == {P(k) : k \in 0..11} \cup {BZero, BOne, BInt(-1), BInt(9999), BInt(10000), BInt(-2147483647)}
Res == [ add |-> {BAdd(a, b) : a, b \in Pool}, sub |-> {BSub(a, b) : a, b \in Pool},
         mul |-> {<<a, b, BMul(a, b)>> : a, b \in Pool},
         div |-> {<<a, b, BDiv(a, b), BMod(a, b)>> : a \in Pool, b \in Pool \ {BZero}},
         md  |-> {<<a, b, BMulDiv(a, b, BInt(7919))>> : a, b \in Pool},
         gcd |-> {<<a, b, BGcd(a, b)>> : a, b \in Pool},
         cmp |-> {<<a, b, BCmp(a, b)>> : a, b \in Pool},
         sq  |-> {<<a, BSqrt(BAbs(a))>> : a \in Pool},
         ti  |-> BToInt(BInt(-2147483647)) ]
Law == \A a \in Pool : \A b \in Pool \ {BZero} :
          /\ BAdd(BMul(BDiv(a, b), b), BMod(a, b)) = a
          /\ BCmp(BAbs(BMod(a, b)), BAbs(b)) < 0
LawSqrt == \A a \in Pool : LET n == BAbs(a) s == BSqrt(n) IN
          BCmp(BMul(s, s), n) <= 0 /\ BCmp(BMul(BAdd(s, BOne), BAdd(s, BOne)), n) > 0
ASSUME Law /\ LawSqrt
ASSUME PrintT(<<"BIGINT", Res>>)
VARIABLE x
Init == x = 0
Next == x' = x
=============================================================================

------------------------------- MODULE MCTime -------------------------------
(* Every time and frequency of a small fixed point format (Q fractional bits): *)
(* the conversions are total, unique, monotonic and invert each other.         *)
EXTENDS Integers, Sequences
CONSTANTS Q, MaxT, MaxZ
W == INSTANCE Wide
VARIABLES x, z
S == 2^Q
iadd(a, b) == a + b
imul(a, b) == a * b
iless(a, b) == a < b
ineg(a) == -a
iup(a) == a * S
idown(a) == a \div S      \* rounds down
inum(a) == a
T == INSTANCE Time WITH add <- iadd, mul <- imul, less <- iless, neg <- ineg, up <- iup, down <- idown, num <- inum
Init == x = -MaxT /\ z = 1
Next == \/ x < MaxT /\ x' = x + 1 /\ z' = z
        \/ x = MaxT /\ z < MaxZ /\ x' = -MaxT /\ z' = z + 1
Spec == Init /\ [][Next]_<<x, z>>
R == (-(MaxT * MaxZ) \div S - 2)..((MaxT * MaxZ) \div S + 2)
The(P(_)) == CHOOSE r \in R : P(r)
Unique == /\ \E r \in R : T!IsCeil(x, z, r) /\ \A q \in R : T!IsCeil(x, z, q) => q = r
          /\ \E r \in R : T!IsNear(x, z, r) /\ \A q \in R : T!IsNear(x, z, q) => q = r
Ceil(a) == The(LAMBDA r : T!IsCeil(a, z, r))
Near(a) == The(LAMBDA r : T!IsNear(a, z, r))
From(c) == IF c < 0 THEN -(((-c) * S) \div z) ELSE (c * S) \div z
Order == /\ T!Floor(x, z) <= Near(x) /\ Near(x) <= Ceil(x) /\ Ceil(x) - T!Floor(x, z) \in {0, 1}
         /\ (Ceil(x) = T!Floor(x, z)) = ((x * z) % S = 0)
         /\ Near(x) = (2 * x * z + S) \div (2 * S)
         /\ Near(x + 1) >= Near(x)
Cl(a) == -((-(a * z)) \div S)
Fl(a) == (a * z) \div S
\* x as a count of z ticks per second
Inverse == /\ T!IsFrom(x, z, From(x)) /\ ~T!IsFrom(x, z, From(x) + 1) /\ ~T!IsFrom(x, z, From(x) - 1)
           /\ (2 * z < S) => (2 * From(x) * z + S) \div (2 * S) = x
           /\ (z <= S) => (IF x >= 0 THEN Cl(From(x)) ELSE Fl(From(x))) = x
\* the wide arithmetic agrees with the built-in one
Wide == /\ W!Mul(W!Small(x), W!Small(z)) = W!Small(x * z)
        /\ W!Add(W!Small(x), W!Small(-z)) = W!Small(x - z)
        /\ W!Neg(W!Small(x)) = W!Small(-x)
        /\ W!Less(W!Small(x), W!Small(z)) = (x < z)
        /\ W!Down30(W!Up30(W!Small(x))) = W!Small(x)
        /\ W!Down30(W!Add(W!Up30(W!Small(x)), W!Small(z))) = W!Small(x)
=============================================================================

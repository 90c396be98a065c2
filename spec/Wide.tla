-------------------------------- MODULE Wide --------------------------------
(* Integers of up to 140 bits, as two's complement sequences of 14 limbs of   *)
(* 10 bits, least significant first (TLC's own integers have 32 bits).        *)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt
LOCAL B == 1024
LOCAL N == 14
IsNeg(a) == a[N] >= 512
\* sign extension of a 64 bit value given as 7 limbs
Ext(l) == [i \in 1..N |-> IF i <= 7 THEN l[i] ELSE IF l[7] >= 512 THEN B - 1 ELSE 0]
Carry(s) == FoldLeft(LAMBDA acc, x : [r |-> Append(acc.r, (x + acc.c) % B), c |-> (x + acc.c) \div B], [r |-> << >>, c |-> 0], s).r
Add(a, b) == Carry([i \in 1..N |-> a[i] + b[i]])
Small(n) == IF n >= 0 THEN [i \in 1..N |-> IF i <= 3 THEN (n \div B^(i - 1)) % B ELSE 0]
            ELSE Carry([i \in 1..N |-> (IF i <= 3 THEN (B - 1) - (((-n) \div B^(i - 1)) % B) ELSE B - 1) + (IF i = 1 THEN 1 ELSE 0)])
Neg(a) == Carry([i \in 1..N |-> (B - 1 - a[i]) + (IF i = 1 THEN 1 ELSE 0)])
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == Carry([i \in 1..N |-> FoldLeft(LAMBDA x, j : x + a[j] * b[i + 1 - j], 0, [j \in 1..i |-> j])])
Zero == Small(0)
Less(a, b) == IsNeg(Sub(a, b))
Abs(a) == IF IsNeg(a) THEN Neg(a) ELSE a
\* multiplied by 2^30, and divided by 2^30 rounding down
Up30(a) == [i \in 1..N |-> IF i <= 3 THEN 0 ELSE a[i - 3]]
Down30(a) == [i \in 1..N |-> IF i + 3 <= N THEN a[i + 3] ELSE IF IsNeg(a) THEN B - 1 ELSE 0]
Two30 == Up30(Small(1))
Two53 == Mul(Two30, Small(8388608))
Two63 == Mul(Mul(Two30, Two30), Small(8))
Fits(a) == Less(a, Two63) /\ ~Less(a, Neg(Two63))
=============================================================================

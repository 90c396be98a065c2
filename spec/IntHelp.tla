------------------------------ MODULE IntHelp ------------------------------
(* Integer and memory helpers (platform/stdlib.h, cdef.h).  An unsigned 32    *)
(* bit value is the pair of its 16 bit halves, most significant first.        *)
EXTENDS Integers, Sequences
\* number of bits needed: the least n with x < 2^n
Bits(x) == CHOOSE n \in 0..16 : x < 2^n /\ (n = 0 \/ x >= 2^(n - 1))
Clz(w) == IF w[1] # 0 THEN 16 - Bits(w[1]) ELSE 32 - Bits(w[2])
Word(n) == IF n >= 16 THEN <<2^(n - 16), 0>> ELSE <<0, 2^n>>       \* 2^n
IsPower(w) == \E n \in 0..31 : w = Word(n)
Dec(w) == IF w[2] > 0 THEN <<w[1], w[2] - 1>> ELSE <<w[1] - 1, 65535>>
\* the least power of two that is at least w, for 1 <= w <= 2^31
Upper(w) == LET d == Dec(w) IN IF d = <<0, 0>> THEN <<0, 1>> ELSE Word(32 - Clz(d))
UpperDefined(w) == w # <<0, 0>> /\ (w[1] < 32768 \/ w = <<32768, 0>>)
Abs(x) == IF x < 0 THEN -x ELSE x
Signum(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* away from zero, to a multiple of m
RoundUp(x, m) == Signum(x) * (((Abs(x) + m - 1) \div m) * m)
Restrict(x, a, b) == IF x < a THEN a ELSE IF x > b THEN b ELSE x
\* --- memory: only the named bytes change
Set(mem, p, v, n) == [i \in 1..Len(mem) |-> IF i > p /\ i <= p + n THEN v % 256 ELSE mem[i]]
Copy(mem, d, s, n) == [i \in 1..Len(mem) |-> IF i > d /\ i <= d + n THEN mem[i - d + s] ELSE mem[i]]
=============================================================================

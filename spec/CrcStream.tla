------------------------------ MODULE CrcStream ------------------------------
(* Running CRCs of a byte stream that is given in pieces (include/embc/crc.h). *)
EXTENDS Crc
VARIABLES c,     \* [8 |-> .., 16 |-> .., 32 |-> ..] the running values, as returned
          act
vars == <<c, act>>
Zero == [k8 |-> 0, k16 |-> 0, k32 |-> <<0, 0>>]
Init == c = Zero /\ act = [op |-> "init"]
Of(k, v, s) == CASE k = "k8" -> Crc8(v, s) [] k = "k16" -> Crc16(v, s) [] OTHER -> Crc32(v, s)
Reset == c' = Zero /\ act' = [op |-> "reset"]
Start(k, v) == c' = [c EXCEPT ![k] = v] /\ act' = [op |-> "start", k |-> k, v |-> v]
Put(k, s) == LET r == Of(k, c[k], s) IN c' = [c EXCEPT ![k] = r] /\ act' = [op |-> "put", k |-> k, s |-> s, r |-> r]
\* the bytes are s[i] = (a + b * i) mod 256
Gen(n, a, b) == [i \in 1..n |-> (a + b * i) % 256]
PutGen(k, n, a, b) == LET r == Of(k, c[k], Gen(n, a, b))
                      IN c' = [c EXCEPT ![k] = r] /\ act' = [op |-> "gen", k |-> k, n |-> n, a |-> a, b |-> b, r |-> r]
\* no data (a null pointer, whatever the length) leaves the value alone
PutNull(k, n) == /\ c' = c /\ act' = [op |-> "null", k |-> k, n |-> n, r |-> c[k]]
\* the values of a table of calls: byte x from each value in a..a + Len(r) - 1
TableOk(k, x, a, r) == \A i \in 1..Len(r) : r[i] = Of(k, a + i - 1, <<x>>)
Table(k, x, a, r) == TableOk(k, x, a, r) /\ UNCHANGED c /\ act' = [op |-> "table", k |-> k, x |-> x, a |-> a, r |-> r]
=============================================================================

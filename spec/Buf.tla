-------------------------------- MODULE Buf ---------------------------------
(* Reading and writing message buffers (include/embc/memory/buffer.h): a byte *)
(* sequence with a cursor, bounded by capacity minus a reserved tail.  Two    *)
(* buffers, so that copying between them can be expressed.                    *)
EXTENDS Integers, Sequences, TLC
VARIABLES b,    \* <<buffer 1, buffer 2>>: [cap, c: contents, cur, res]
          act
vars == <<b, act>>
Nil == [cap |-> 0, c |-> << >>, cur |-> 0, res |-> 0]
Init == b = <<Nil, Nil>> /\ act = [op |-> "init"]

Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y
WriteRoom(k) == b[k].cap - b[k].cur - b[k].res
ReadRoom(k) == Len(b[k].c) - b[k].cur
View(f) == [c |-> f.c, cur |-> f.cur, len |-> Len(f.c), res |-> f.res, cap |-> f.cap,
            wr |-> f.cap - f.cur - f.res, rr |-> Len(f.c) - f.cur]
\* every event carries the complete observable state of both buffers after the call
Log(rec) == act' = rec @@ [s |-> <<View(b'[1]), View(b'[2])>>]

Overlay(c, cur, d) == [i \in 1..Max(Len(c), cur + Len(d)) |->
                          IF i > cur /\ i <= cur + Len(d) THEN d[i - cur] ELSE c[i]]
Put(f, d) == [f EXCEPT !.c = Overlay(@, f.cur, d), !.cur = @ + Len(d)]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

Reset(c1, c2) ==
    /\ b' = <<[Nil EXCEPT !.cap = c1], [Nil EXCEPT !.cap = c2]>>
    /\ Log([op |-> "reset"])

\* write: raw bytes; d non-empty must fit or the call is fatal and changes nothing
Write(k, d) ==
    LET fatal == Len(d) > 0 /\ Len(d) > WriteRoom(k)
    IN /\ b' = IF fatal \/ d = << >> THEN b ELSE [b EXCEPT ![k] = Put(@, d)]
       /\ Log([op |-> "write", k |-> k, d |-> d, fatal |-> fatal])
\* integer writes: value v as bytes, most significant first; width is Len(v)
WriteInt(k, be, v) ==
    LET fatal == Len(v) > WriteRoom(k)
    IN /\ b' = IF fatal THEN b ELSE [b EXCEPT ![k] = Put(@, IF be THEN v ELSE Rev(v))]
       /\ Log([op |-> "wint", k |-> k, be |-> be, v |-> v, fatal |-> fatal])
Read(k, n, got) ==
    LET fatal == n > 0 /\ n > ReadRoom(k)
    IN /\ b' = IF fatal THEN b ELSE [b EXCEPT ![k].cur = @ + n]
       /\ Log([op |-> "read", k |-> k, n |-> n, fatal |-> fatal,
               d |-> IF fatal THEN << >> ELSE SubSeq(b[k].c, b[k].cur + 1, b[k].cur + n)])
ReadInt(k, be, w) ==
    LET fatal == w > ReadRoom(k)
        d == SubSeq(b[k].c, b[k].cur + 1, b[k].cur + w)
    IN /\ b' = IF fatal THEN b ELSE [b EXCEPT ![k].cur = @ + w]
       /\ Log([op |-> "rint", k |-> k, be |-> be, w |-> w, fatal |-> fatal,
               v |-> IF fatal THEN << >> ELSE IF be THEN d ELSE Rev(d)])
\* copy n bytes at the source cursor to the destination cursor; the source does not change
Copy(k, n) ==
    LET s == 3 - k
        fatal == n > ReadRoom(s) \/ n > WriteRoom(k)
        d == SubSeq(b[s].c, b[s].cur + 1, b[s].cur + n)
    IN /\ b' = IF fatal \/ n = 0 THEN b ELSE [b EXCEPT ![k] = Put(@, d)]
       /\ Log([op |-> "copy", k |-> k, n |-> n, fatal |-> fatal])
\* string writes: as much as fits; TRUE iff all of it did.  The asserting variant is fatal
\* otherwise (what it wrote before failing is not specified, so it is logged as the truncation).
WriteStr(k, d, trunc) ==
    LET room == Max(0, WriteRoom(k))
        all == Len(d) <= room
        w == SubSeq(d, 1, Min(Len(d), room))
    IN /\ b' = IF w = << >> THEN b ELSE [b EXCEPT ![k] = Put(@, w)]
       /\ Log([op |-> "wstr", k |-> k, d |-> d, trunc |-> trunc, ret |-> all, fatal |-> ~trunc /\ ~all])
Seek(k, i) ==
    LET fatal == i < 0 \/ i > Len(b[k].c)
    IN /\ b' = IF fatal THEN b ELSE [b EXCEPT ![k].cur = i]
       /\ Log([op |-> "seek", k |-> k, i |-> i, fatal |-> fatal])
Erase(k, from, to) ==
    LET n == Len(b[k].c)
        fatal == from < 0 \/ from >= n \/ to < 0 \/ to > n
        m == to - from
        cur2 == IF b[k].cur >= to THEN b[k].cur - m ELSE IF b[k].cur > from THEN from ELSE b[k].cur
    IN /\ b' = IF fatal \/ m <= 0 THEN b
               ELSE [b EXCEPT ![k].c = SubSeq(@, 1, from) \o SubSeq(@, to + 1, n), ![k].cur = cur2]
       /\ Log([op |-> "erase", k |-> k, from |-> from, to |-> to, fatal |-> fatal])
Rewind(k, clear) ==
    /\ b' = [b EXCEPT ![k].c = << >>, ![k].cur = 0]
    /\ Log([op |-> "rewind", k |-> k, clear |-> clear, zero |-> TRUE])
\* (re)initialising a static buffer makes it empty with no reserve
Reinit(k) ==
    /\ b' = [b EXCEPT ![k].c = << >>, ![k].cur = 0, ![k].res = 0]
    /\ Log([op |-> "reinit", k |-> k, fresh |-> << 8, 0, 0, 0, 0, 0, 1, 11, 0, 0, 0, 0, 0, 1 >>, kept |-> TRUE])
Reserve(k, r) ==
    /\ r <= b[k].cap
    /\ b' = [b EXCEPT ![k].res = r]
    /\ Log([op |-> "reserve", k |-> k, r |-> r])

Bounds == \A k \in 1..2 : b[k].cur <= Len(b[k].c) /\ Len(b[k].c) <= b[k].cap
=============================================================================

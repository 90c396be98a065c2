-------------------------------- MODULE Bbuf --------------------------------
(* Encoding to and decoding from byte buffers (include/embc/bbuf.h): a memory *)
(* of bytes, a write cursor and a read cursor.  A value is the sequence of    *)
(* its bytes, most significant first.                                         *)
EXTENDS Integers, Sequences
VARIABLES mem, wr, rd, got, act
vars == <<mem, wr, rd, got>>
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Image(v, big) == IF big THEN v ELSE Rev(v)
Put(m, p, s) == [i \in 1..Len(m) |-> IF i > p /\ i <= p + Len(s) THEN s[i - p] ELSE m[i]]
Get(m, p, w, big) == Image(SubSeq(m, p + 1, p + w), big)
Start(m) == mem' = m /\ wr' = 0 /\ rd' = 0 /\ got' = << >>
Seek(w, r) == w \in 0..Len(mem) /\ r \in 0..Len(mem) /\ wr' = w /\ rd' = r /\ UNCHANGED <<mem, got>>
Enc(v, big) == /\ wr + Len(v) <= Len(mem)
               /\ mem' = Put(mem, wr, Image(v, big)) /\ wr' = wr + Len(v) /\ UNCHANGED <<rd, got>>
Dec(w, big) == /\ rd + w <= Len(mem)
               /\ got' = Get(mem, rd, w, big) /\ rd' = rd + w /\ UNCHANGED <<mem, wr>>
EncAt(p, v, big) == p + Len(v) <= Len(mem) /\ mem' = Put(mem, p, Image(v, big)) /\ UNCHANGED <<wr, rd, got>>
DecAt(p, w, big) == p + w <= Len(mem) /\ got' = Get(mem, p, w, big) /\ UNCHANGED <<mem, wr, rd>>
=============================================================================

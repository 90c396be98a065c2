------------------------------- MODULE MCBbuf -------------------------------
EXTENDS Bbuf, TLC, Json
CONSTANTS N, Bytes, Widths
LOCAL INSTANCE SequencesExt
Values == UNION {[1..w -> Bytes] : w \in Widths}
A(op, w, big, v) == act' = [op |-> op, w |-> w, big |-> big, v |-> v]
Init == mem = [i \in 1..N |-> 0] /\ wr = 0 /\ rd = 0 /\ got = << >> /\ act = [op |-> "reset"]
Next == \/ \E v \in Values, b \in BOOLEAN : Enc(v, b) /\ A("enc", Len(v), b, v)
        \/ \E w \in Widths, b \in BOOLEAN : Dec(w, b) /\ A("dec", w, b, << >>)
        \/ wr > 0 /\ rd = N /\ Seek(0, 0) /\ A("seek", 0, TRUE, << >>)
Spec == Init /\ [][Next]_<<vars, act>>
View == <<mem, wr, rd>>
\* what is written is read back, in either order, and nothing else changes
RoundTrip == \A v \in Values, b \in BOOLEAN, p \in 0..N : p + Len(v) <= N =>
    LET m == Put(mem, p, Image(v, b)) IN
    /\ Get(m, p, Len(v), b) = v
    /\ Get(m, p, Len(v), ~b) = Rev(v)
    /\ \A i \in 1..N : (i <= p \/ i > p + Len(v)) => m[i] = mem[i]
Bounds == wr \in 0..N /\ rd \in 0..N
\* a wide value is its halves one after the other: high half first in big endian order
Halves == \A v \in Values, p \in 0..N : Len(v) \in {2, 4, 8} /\ p + Len(v) <= N =>
    LET h == Len(v) \div 2 hi == SubSeq(v, 1, h) lo == SubSeq(v, h + 1, 2 * h) IN
    /\ Put(mem, p, v) = Put(Put(mem, p, hi), p + h, lo)
    /\ Put(mem, p, Rev(v)) = Put(Put(mem, p, Rev(lo)), p + h, Rev(hi))
Untouched == [][\A i \in 1..N : i <= wr \/ i > wr' => mem'[i] = mem[i]]_vars
Emit == PrintT("T|" \o ToJson(View) \o "|" \o ToJson(act') \o "|" \o ToJson(View'))
=============================================================================

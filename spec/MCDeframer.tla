----------------------------- MODULE MCDeframer -----------------------------
(* Byte streams made of chunks: frames, damaged and cut frames, frames inside   *)
(* frames, stray bytes.  Incremental deframing finds exactly the frames that a  *)
(* search of the whole stream from left to right finds.                         *)
EXTENDS Deframer, Json, TLC
LOCAL INSTANCE SequencesExt
CONSTANT DEPTH
VARIABLES r, all, out, act
F(t, id, pay) == Encode([t |-> t, id |-> id, port |-> 1, msg |-> 2, def |-> 511, pay |-> pay])
Bad(b, i) == [b EXCEPT ![i] = (@ + 1) % 256]
E == F("data", 1, << >>)
A == F("ack", 2, <<0>>)
N == F("data", 3, <<7>> \o E \o <<SOF>>)        \* a frame that contains a frame
Hdr(n) == LET h == <<SOF, 4, 1, 2, n, 0, 0>> IN h \o <<Crc8(0, h)>>
Chunks == << E, A, N, Bad(N, 8), Bad(N, 24), Bad(E, 10), Front(E), SubSeq(A, 1, 9), Hdr(14), Hdr(241), <<SOF>>, <<0, SOF, SOF>>, <<1, 2, 3, 4, 5, 6, 7>> >>
Flush == [i \in 1..260 |-> 0]
\* whole-stream search: the position to continue from and the frames
Greedy(s) ==
    LET At(acc, i) ==
            IF i < acc.next \/ s[i] # SOF THEN acc
            ELSE LET b == SubSeq(s, i, Len(s)) w == Look(b)
                 IN IF w.k = "frame" THEN [next |-> i + w.n, out |-> Append(acc.out, SubSeq(b, 1, w.n))] ELSE acc
    IN FoldLeft(At, [next |-> 1, out |-> << >>], [i \in 1..Len(s) |-> i]).out
Frames(found) == LET fs == SelectSeq(found, LAMBDA it : it.k = "frame") IN [i \in DOMAIN fs |-> fs[i].b]
Init == r = NewRx /\ all = << >> /\ out = << >> /\ act = << >>
Next == /\ Len(act) < DEPTH
        /\ \E c \in DOMAIN Chunks :
            LET r1 == RxBytes(r, Chunks[c]) IN
            /\ r' = r1 /\ all' = all \o Chunks[c] /\ out' = out \o Frames(r1.found) /\ act' = Append(act, c)
Spec == Init /\ [][Next]_<<r, all, out, act>>
Complete == out \o Frames(RxBytes(r, Flush).found) = Greedy(all \o Flush)
Bounded == Len(r.buf) < HDR + MAXPAY + FTR
\* every path of chunks, for the replay
Emit == Len(act') = DEPTH => PrintT("T|0|" \o ToJson([i \in DOMAIN act' |-> Chunks[act'[i]]]) \o "|0")
=============================================================================

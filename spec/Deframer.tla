------------------------------ MODULE Deframer ------------------------------
(* The byte level of the framer: finding frames in a byte stream, and encoding  *)
(* frames.  The receiver keeps the bytes from a presumed start of frame on; when *)
(* they turn out not to be a frame, it searches those same bytes for the next.  *)
EXTENDS Integers, Sequences, Crc
LOCAL INSTANCE SequencesExt
SOF == 170
HDR == 8
FTR == 5
MAXPAY == 240
Crc32Le(s) == LET c == Crc32(<<0, 0>>, s) IN <<c[2] % 256, c[2] \div 256, c[1] % 256, c[1] \div 256>>
HdrOk(b) == b[1] = SOF /\ b[8] = Crc8(0, SubSeq(b, 1, 7))
FrameOk(b, n) == LET m == n - FTR IN SubSeq(b, m + 1, m + 4) = Crc32Le(SubSeq(b, 1, m))
\* what the bytes b, which start with SOF, are: too few, a frame of some size, or nothing
Look(b) == IF Len(b) < HDR THEN [k |-> "header", n |-> HDR]
           ELSE IF ~HdrOk(b) THEN [k |-> "no", n |-> 0]
           ELSE IF b[5] > MAXPAY THEN [k |-> "no", n |-> 0]
           ELSE LET n == b[5] + HDR + FTR IN
                IF Len(b) < n THEN [k |-> "more", n |-> n]
                ELSE IF FrameOk(b, n) THEN [k |-> "frame", n |-> n] ELSE [k |-> "no", n |-> 0]
Fields(b) == [t |-> IF b[2] >= 128 THEN "ack" ELSE "data", id |-> b[2] % 16, port |-> b[3], msg |-> b[4],
              def |-> b[6] + 256 * b[7]]
Decode(b) == Fields(b) @@ [pay |-> SubSeq(b, HDR + 1, HDR + b[5])]
Encode(f) == LET h == <<SOF, IF f.t = "ack" THEN 128 + f.id ELSE f.id, f.port, f.msg, Len(f.pay), f.def % 256, f.def \div 256>>
                 b == h \o <<Crc8(0, h)>> \o f.pay
             IN b \o Crc32Le(b) \o <<SOF>>
\* mode: "idle" (a start of frame is next), "header" or "body"; sync: the last frame was found where it was expected
NewRx == [mode |-> "idle", sync |-> FALSE, buf |-> << >>, want |-> 0, found |-> << >>]
\* search the bytes of r for frames
RECURSIVE Search(_)
Search(r) ==
    LET s == {i \in 1..Len(r.buf) : r.buf[i] = SOF} IN
    IF s = {} THEN [r EXCEPT !.buf = << >>]
    ELSE LET i == CHOOSE i \in s : \A j \in s : i <= j
             b == SubSeq(r.buf, i, Len(r.buf))
             w == Look(b)
         IN CASE w.k = "header" -> [r EXCEPT !.mode = "header", !.sync = FALSE, !.buf = b, !.want = w.n]
              [] w.k = "more" -> [r EXCEPT !.mode = "body", !.sync = TRUE, !.buf = b, !.want = w.n]
              [] w.k = "frame" -> Search([r EXCEPT !.sync = TRUE, !.buf = SubSeq(b, w.n + 1, Len(b)),
                                                   !.found = Append(@, [k |-> "frame", b |-> SubSeq(b, 1, w.n)])])
              [] OTHER -> Search([r EXCEPT !.buf = Tail(b)])
\* the bytes of r are not a frame: report it once, and search
Fail(r, item) == Search([r EXCEPT !.mode = "idle", !.sync = FALSE, !.buf = Tail(@),
                                  !.found = IF r.sync THEN Append(@, item) ELSE @])
RxByte(r0, x) ==
    LET r == [r0 EXCEPT !.buf = Append(@, x)] IN
    CASE r.mode = "idle" -> IF x = SOF THEN [r EXCEPT !.buf = <<SOF>>]
                            ELSE [r EXCEPT !.mode = "header", !.want = Len(r.buf) + 6]
      [] r.mode = "header" /\ Len(r.buf) >= r.want ->
             IF r.buf[1] # SOF \/ ~HdrOk(r.buf) THEN Fail(r, [k |-> "nack", s |-> 25])
             ELSE IF r.buf[5] > MAXPAY THEN Fail(r, [k |-> "nack", s |-> 15])
             ELSE [r EXCEPT !.mode = "body", !.sync = TRUE, !.want = r.buf[5] + HDR + FTR]
      [] r.mode = "body" /\ Len(r.buf) >= r.want ->
             IF FrameOk(r.buf, r.want) THEN [r EXCEPT !.mode = "idle", !.sync = TRUE, !.buf = << >>,
                                                      !.found = Append(@, [k |-> "frame", b |-> r.buf])]
             ELSE Fail(r, [k |-> "mic", b |-> r.buf])
      [] OTHER -> r
RxBytes(r, s) == FoldLeft(RxByte, [r EXCEPT !.found = << >>], s)
=============================================================================

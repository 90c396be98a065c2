------------------------------- MODULE Framer -------------------------------
(* One endpoint of the reliable framer (include/embc/stream/framer.h), above    *)
(* the byte level: a frame is a record                                          *)
(*   [t |-> "data" | "ack", id, port, msg, def, pay]                            *)
(* where an ack carries the mask of received frames in def (bit 8: this frame,  *)
(* bit 8-k: the frame k before, bit 8+k: the frame k after) and its status in   *)
(* pay.  Every operation maps an endpoint to its next state; what it sends,     *)
(* delivers and reports is collected in the field o.                            *)
(* Deadlines are relative to the present; Tick moves the present.               *)
EXTENDS Integers, Sequences, TLC, Bitwise
CONSTANTS WINDOW,    \* 3: frames awaiting an ack
          IDS,       \* 16
          RETRIES,   \* 16
          TXTO,      \* 250 ms
          RXTO,      \* 800 ms
          PORTS,     \* 16
          COUNT      \* keep the status counters
NONE == 1000000000
TIMED_OUT == 11
INTEGRITY == 9
ABORTED == 24
ZERO == [rx |-> 0, data |-> 0, ack |-> 0, dup |-> 0, sync |-> 0, mic |-> 0, idErr |-> 0, tx |-> 0, retx |-> 0]
NoOut == [tx |-> << >>, dlv |-> << >>, done |-> << >>, arr |-> << >>]
NewEp == [rxid |-> 0,          \* id after the highest one received
          mask |-> 0,          \* bit 8-k: the frame k before rxid was received
          pend |-> << >>,      \* received, not delivered yet
          rxt |-> NONE,        \* deadline for delivering what is pending
          txid |-> 0,
          act |-> << >>,       \* frames awaiting an ack: [f, stat, retries, to, hal]
          queue |-> << >>,     \* frames waiting for a place in act
          orphan |-> << >>,    \* ids of completed frames whose buffer the HAL still owns
          acks |-> 0,          \* acks that the HAL owns
          held |-> 0,          \* received frames that the application keeps
          syn |-> FALSE,       \* the HAL finishes a frame before the call that hands it over returns
          st |-> ZERO, o |-> NoOut]
Bump(e, c) == IF COUNT THEN [e EXCEPT !.st[c] = @ + 1] ELSE e
Shr(x, n) == x \div (2^n)
Tick(e, d) == LET less(x) == IF x = NONE THEN NONE ELSE IF x > d THEN x - d ELSE 0
              IN [e EXCEPT !.rxt = less(@), !.act = [i \in DOMAIN @ |-> [@[i] EXCEPT !.to = less(@)]]]
\* the deadline for which the timer is set
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE MinTo(_, _)
MinTo(a, i) == IF i > Len(a) THEN NONE ELSE Min2(IF a[i].stat = "acked" THEN NONE ELSE a[i].to, MinTo(a, i + 1))
Need(e) == Min2(e.rxt, MinTo(e.act, 1))

\* ------------------------------------------------------------ transmitter
Transmit(e, i) ==
    LET a == e.act[i] IN
    [e EXCEPT !.act[i] = [a EXCEPT !.stat = IF e.syn THEN "wait" ELSE "tx", !.to = TXTO, !.hal = ~e.syn],
              !.o.tx = IF a.hal THEN @ ELSE Append(@, a.f)]
RECURSIVE TransmitQueued(_)
TransmitQueued(e) ==
    IF Len(e.act) >= WINDOW \/ e.queue = << >> THEN e
    ELSE LET e1 == [e EXCEPT !.act = Append(@, [f |-> Head(e.queue), stat |-> "tx", retries |-> 0, to |-> TXTO, hal |-> FALSE]),
                             !.queue = Tail(@)]
         IN TransmitQueued(Transmit(e1, Len(e1.act)))
Send(e, port, msg, def, pay) ==
    TransmitQueued([e EXCEPT !.queue = Append(@, [t |-> "data", id |-> e.txid, port |-> port, msg |-> msg, def |-> def, pay |-> pay]),
                             !.txid = (@ + 1) % IDS])
\* The application: port 4 sends again, with a lower message id, when a frame is confirmed;
\* nobody listens on port 5
AppDone(e, f, status) ==
    IF f.port = 5 THEN e ELSE
    LET e1 == [e EXCEPT !.o.done = Append(@, <<f.port, f.msg, f.def, status>>)]
    IN IF f.port = 4 /\ status = 0 /\ f.msg > 0 THEN Send(e1, 4, f.msg - 1, f.def, <<f.msg>>) ELSE e1
Complete(e, f, hal, status) ==
    LET e1 == Bump(IF hal THEN [e EXCEPT !.orphan = Append(@, f.id)] ELSE e, "tx")
    IN IF f.port = 0 /\ (f.def % 256) \in {5, 7} THEN e1 ELSE AppDone(e1, f, status)
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
CompleteAt(e, i, status) == LET a == e.act[i] IN Complete([e EXCEPT !.act = RemoveAt(@, i)], a.f, a.hal, status)
TxError(e, i, status) ==
    IF e.act[i].retries >= RETRIES THEN CompleteAt(e, i, status)
    ELSE Transmit(Bump([e EXCEPT !.act[i].retries = @ + 1], "retx"), i)
\* frames are confirmed to the application in order
RECURSIVE CompleteHeads(_)
CompleteHeads(e) == IF e.act # << >> /\ e.act[1].stat = "acked" THEN CompleteHeads(CompleteAt(e, 1, 0)) ELSE e
RECURSIVE CompleteInOrder(_, _, _)
CompleteInOrder(e, id, seen) ==
    IF e.act = << >> THEN e
    ELSE LET h == e.act[1]
             s == seen \/ h.f.id = id
         IN IF h.stat = "acked" THEN CompleteInOrder(CompleteAt(e, 1, 0), id, s)
            ELSE IF ~s /\ h.stat = "wait" THEN Transmit(Bump(e, "retx"), 1)     \* passed by a later frame
            ELSE e
Resume(e) == TransmitQueued(CompleteHeads(e))
RECURSIVE FindId(_, _, _)
FindId(a, id, i) == IF i > Len(a) THEN 0 ELSE IF a[i].f.id = id THEN i ELSE FindId(a, id, i + 1)
Confirm(e, f) ==
    LET k == FindId(e.act, f.id, 1)
        hit(i) == LET d == (f.id - e.act[i].f.id + IDS) % IDS IN d <= 8 /\ Shr(f.def, 8 - d) % 2 = 1
        e1 == [e EXCEPT !.act = [i \in DOMAIN @ |-> IF i = k \/ (i < k /\ @[i].stat = "wait" /\ hit(i))
                                                   THEN [@[i] EXCEPT !.stat = "acked", !.to = NONE] ELSE @[i]]]
    IN TransmitQueued(IF k = 0 THEN e ELSE CompleteInOrder(e1, f.id, FALSE))
RxAck(e, f) ==
    IF Len(f.pay) # 1 THEN e
    ELSE IF f.pay[1] = 0 THEN Confirm(e, f)
    ELSE IF f.def = 0 THEN e
    ELSE LET k == FindId(e.act, f.id, 1)
         IN IF k = 0 THEN e ELSE Resume(TxError(e, k, INTEGRITY))
\* the HAL finishes a frame; of two with one id, the one that is already complete is older
RECURSIVE IndexOf(_, _, _)
IndexOf(s, v, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = v THEN i ELSE IndexOf(s, v, i + 1)
HalDone(e, f) ==
    IF f.t = "ack" THEN [e EXCEPT !.acks = @ - 1]
    ELSE LET o == IndexOf(e.orphan, f.id, 1)
             k == FindId(e.act, f.id, 1)
         IN IF o # 0 THEN [e EXCEPT !.orphan = RemoveAt(@, o)]
            ELSE IF k # 0 THEN [e EXCEPT !.act[k].hal = FALSE, !.act[k].stat = IF @ = "tx" THEN "wait" ELSE @]
            ELSE e
RECURSIVE Abort(_, _)
Abort(e, k) == IF e.act # << >> THEN Abort(CompleteAt(e, 1, ABORTED), k)
               ELSE IF e.queue # << >> THEN Abort(Complete([e EXCEPT !.queue = Tail(@)], Head(e.queue), FALSE, ABORTED), k)
               ELSE e
Resync(e) == Send(Abort([e EXCEPT !.pend = << >>], 0), 0, 0, 2, << >>)

\* ------------------------------------------------------------ receiver
Le32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
StatusBytes(s) == Le32(0) \o Le32(s.rx) \o Le32(s.data) \o Le32(s.ack) \o Le32(s.dup) \o Le32(s.sync)
                  \o Le32(s.mic) \o Le32(s.idErr) \o Le32(s.tx) \o Le32(s.retx)
\* The application: port 2 sends the frame back on port 3, port 6 keeps the buffer
AppRx(e, f) ==
    IF f.port = 5 THEN e ELSE
    LET e1 == [e EXCEPT !.o.dlv = Append(@, <<f.port, f.msg, f.def, f.pay>>)]
    IN IF f.port = 2 THEN Send(e1, 3, f.msg, f.def, f.pay) ELSE IF f.port = 6 THEN [e1 EXCEPT !.held = @ + 1] ELSE e1
DeliverOne(e, f) ==
    LET e1 == Bump([e EXCEPT !.o.arr = Append(@, f)], "data")
        cmd == f.def % 256
    IN IF f.port = 0 /\ cmd = 4 THEN Send(e1, 0, f.msg, 5, f.pay)
       ELSE IF f.port = 0 /\ cmd = 6
            THEN Send(e1, 0, f.msg, 7, StatusBytes(e1.st) \o SubSeq(f.pay, 41, Len(f.pay)))
       ELSE AppRx(e1, f)
RECURSIVE DeliverAll(_)
DeliverAll(e) == IF e.pend = << >> THEN e ELSE DeliverAll(DeliverOne([e EXCEPT !.pend = Tail(@)], Head(e.pend)))
FULL == (2^WINDOW - 1) * 2^(8 - WINDOW)     \* the WINDOW frames before rxid
DeliverOrWait(e) == IF (e.mask & FULL) = FULL THEN DeliverAll(e)
                    ELSE IF e.pend # << >> THEN [e EXCEPT !.rxt = RXTO] ELSE e
AckOf(f, mask, status) == [t |-> "ack", id |-> f.id, port |-> f.port, msg |-> f.msg, def |-> mask, pay |-> <<status>>]
SendAck(e, f, mask, status) == [e EXCEPT !.o.tx = Append(@, AckOf(f, mask, status)), !.acks = IF e.syn THEN @ ELSE @ + 1]
HALF == IDS \div 2
Signed(d) == IF d > HALF THEN d - IDS ELSE d
\* position among the pending frames by id
RECURSIVE Insert(_, _, _)
Insert(p, f, i) == IF i > Len(p) THEN Append(p, f)
                   ELSE IF Signed((f.id - p[i].id + IDS) % IDS) < 0 THEN SubSeq(p, 1, i - 1) \o <<f>> \o SubSeq(p, i, Len(p))
                   ELSE Insert(p, f, i + 1)
RxData(e, f) ==
    LET d == Signed((f.id - e.rxid + IDS) % IDS)
        mk == 256 + Shr(e.mask, d)                       \* d >= 0
        bit == Shr(256, -d)                              \* d < 0
    IN IF f.port = 0 /\ f.def = 2                        \* resynchronize
       THEN DeliverOrWait(SendAck([e EXCEPT !.pend = << >>, !.rxid = (f.id + 1) % IDS, !.mask = 255], f, 256, 0))
       ELSE IF d >= 0 /\ d < WINDOW                      \* expected, or ahead
       THEN DeliverOrWait(SendAck([e EXCEPT !.rxid = (f.id + 1) % IDS, !.mask = mk \div 2, !.pend = Append(@, f)], f, mk, 0))
       ELSE IF d < 0 /\ d >= -WINDOW                     \* behind
       THEN LET e1 == IF (e.mask & bit) # 0 THEN Bump(e, "dup")
                      ELSE [e EXCEPT !.mask = @ + bit, !.pend = Insert(@, f, 1)]
            IN DeliverOrWait(SendAck(e1, f, e1.mask * 2^(-d), 0))
       ELSE DeliverOrWait(SendAck(Bump([e EXCEPT !.pend = <<f>>, !.rxid = (f.id + 1) % IDS, !.mask = 128], "idErr"), f, 256, 0))
RxFrame(e, f) == IF f.port >= PORTS THEN e
                 ELSE IF f.t = "ack" THEN RxAck(Bump(e, "ack"), f) ELSE RxData(e, f)
\* a frame with a correct header and a wrong frame check
RxMic(e, f) == SendAck(Bump(e, "mic"), f, 256, INTEGRITY)
\* bytes that are no frame at all
RxSync(e, status) == SendAck(Bump(e, "sync"), [id |-> 0, port |-> 0, msg |-> 0], 0, status)

\* ------------------------------------------------------------ timer
RECURSIVE Overdue(_, _, _)
Overdue(e, ids, i) ==
    IF i > Len(ids) THEN e
    ELSE LET k == FindId(e.act, ids[i], 1)
         IN Overdue(IF k # 0 /\ e.act[k].stat # "acked" /\ e.act[k].to = 0 THEN TxError(e, k, TIMED_OUT) ELSE e, ids, i + 1)
TimerFire(e) ==
    LET e1 == IF e.rxt = 0 THEN DeliverAll([e EXCEPT !.rxt = NONE]) ELSE e
    IN Resume(Overdue(e1, [i \in DOMAIN e1.act |-> e1.act[i].f.id], 1))
Buffers(e) == Len(e.pend) + Len(e.act) + Len(e.queue) + Len(e.orphan) + e.held    \* frame buffers in use
Clear(e) == [e EXCEPT !.o = NoOut]
=============================================================================

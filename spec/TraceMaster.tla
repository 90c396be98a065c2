----------------------------- MODULE TraceMaster ----------------------------
(* The qualification tool as a whole (py/bin/framer_qual.py, MasterFramer): a  *)
(* framer endpoint (Framer, Deframer) whose application is the queue of pings  *)
(* (PingQueue), driven by a loop that takes what the serial port has, looks at *)
(* the timer and then at the queue.  The other end of the line is another      *)
(* framer; the bytes that arrive from it are taken from the recording.         *)
EXTENDS Framer, Deframer, Json, IOUtils
P == INSTANCE PingQueue WITH DEPTH <- 3, TIMEOUT <- 5120, DELAY <- 1024, IDS <- 256,
                             total <- 0, gen <- 0, q <- << >>, n <- << >>, delay <- 0, sent <- << >>, act <- << >>
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, e, r
Bytes(fs) == [i \in DOMAIN fs |-> Encode(fs[i])]
IsAck(b) == Len(b) > 1 /\ b[2] >= 128
Data(s) == SelectSeq(s, LAMBDA b : ~IsAck(b))
Acks(s) == SelectSeq(s, LAMBDA b : IsAck(b))
\* the payload of ping k: the next 60 words of the test pattern, least significant byte first
WordBytes(p) == LET j == p \div 2 IN
                IF p % 2 = 1 THEN LET c == j % 65536 d == 65535 - c IN <<c % 256, c \div 256, d % 256, d \div 256>>
                ELSE LET k == j % 33 IN [i \in 1..4 |-> IF k > 0 /\ (k - 1) \div 8 = i - 1 THEN 2^((k - 1) % 8) ELSE 0]
PAY == [k \in 0..31 |-> [i \in 1..240 |-> WordBytes(60 * k + (i - 1) \div 4)[((i - 1) % 4) + 1]]]
KOf(pay) == LET S == {k \in DOMAIN PAY : PAY[k] = pay} IN IF S = {} THEN -1 ELSE CHOOSE k \in S : TRUE
RECURSIVE SendPings(_, _)
SendPings(x, s) == IF s = << >> THEN x ELSE SendPings(Send(x, 0, Head(s)[1], 4, PAY[Head(s)[2]]), Tail(s))
With(x, app) == SendPings([x EXCEPT !.app = [app EXCEPT !.sent = << >>]], app.sent)
MasterRx(x, f) == IF f.port = 0 /\ f.def = 5 THEN With(x, P!Rx(x.app, f.msg, KOf(f.pay))) ELSE x
MasterDone(x, f, status) == IF f.port = 0 /\ f.def = 4 THEN With(x, P!Done(x.app, f.msg, status)) ELSE x
Item(n, it) == CASE it.k = "frame" -> RxFrame(Bump(n, "rx"), Decode(it.b))
                 [] it.k = "mic"   -> RxMic(n, Fields(it.b))
                 [] it.k = "nack"  -> RxSync(n, it.s)
LOCAL FoldItems(n, s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN n ELSE Item(F[i - 1], s[i]) IN F[Len(s)]
Cur == Clear(e)
Same(n, ev) == /\ Data(Bytes(n.o.tx)) = Data(ev.tx) /\ Acks(Bytes(n.o.tx)) = Acks(ev.tx)
               /\ ("n" \in DOMAIN ev => n.app.n = ev.n)
               /\ e' = n
Round(n) == LET n1 == IF Need(n) = 0 THEN TimerFire(n) ELSE n IN IF n1.app.total # 0 THEN With(n1, P!Process(n1.app)) ELSE n1
Loop(ev) == LET r1 == RxBytes(r, ev.b)
            IN /\ r' = r1
               /\ Same(Round(FoldItems(Cur, r1.found)), ev)
SynEp == [NewEp EXCEPT !.syn = TRUE]
Step(ev) ==
    CASE ev.op = "reset" -> e' = (SynEp @@ [app |-> P!Fresh(0)]) /\ r' = NewRx
      [] ev.op = "open"  -> Same(Resync(Cur), ev) /\ UNCHANGED r
      [] ev.op = "start" -> Same(With(Cur, P!Process(P!Fresh(ev.count))), ev) /\ UNCHANGED r
      [] ev.op = "loop"  -> Loop(ev)
      [] ev.op = "adv"   -> e' = [Tick(e, ev.d) EXCEPT !.app = P!Tick(@, ev.d)] /\ UNCHANGED r
      [] ev.op = "drained" -> /\ ev.all /\ e.act = << >> /\ e.queue = << >> /\ e.pend = << >> /\ Need(e) = NONE
                              /\ e.app.q = << >> /\ (e.app.total > 0 => e.app.gen = e.app.total)
                              /\ UNCHANGED <<e, r>>
      [] OTHER -> FALSE
Account == e.app.gen = e.app.n[1] + e.app.n[2] + e.app.n[3] + e.app.n[4] + Len(e.app.q)
TraceInit == l = 1 /\ e = (SynEp @@ [app |-> P!Fresh(0)]) /\ r = NewRx
TraceNext == /\ l <= Len(Trace)
             /\ Step(Trace[l])
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<e, r, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

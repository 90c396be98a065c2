----------------------------- MODULE TraceFramer -----------------------------
(* Recorded behaviour of two real framers against Framer and Deframer.  The     *)
(* bytes that an endpoint receives and the frames that its HAL finishes are     *)
(* taken from the recording; what the endpoint then sends, delivers, reports    *)
(* and schedules must be what the specification computes.  FOCUS chooses which  *)
(* of these outputs are compared.                                               *)
EXTENDS Framer, Deframer, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
FOCUS == IOEnv.FOCUS
\* time in units of 2^-30 s, the resolution of the implementation: TXTO = 250 ms, RXTO = 800 ms
VARIABLES l, e, r, hook
vars == <<e, r, hook>>
On(c) == FOCUS = c
Bytes(fs) == [i \in DOMAIN fs |-> Encode(fs[i])]
IsAck(b) == Len(b) > 1 /\ b[2] >= 128
Data(s) == SelectSeq(s, LAMBDA b : ~IsAck(b))
Acks(s) == SelectSeq(s, LAMBDA b : IsAck(b))
Nacks(s) == SelectSeq(s, LAMBDA b : IsAck(b) /\ Len(b) = HDR + 1 + FTR /\ b[HDR + 1] # 0)
Port0(s) == SelectSeq(s, LAMBDA b : Len(b) > 2 /\ b[3] = 0)
Counters(st, ev, names) == \A c \in names : st[c] = ev.st[c]
Rel(t) == IF t = NONE THEN -1 ELSE t
\* a receive deadline that was left over when nothing waits any more may be kept or dropped: its expiry does nothing
Armed(n) == {Rel(Need(n))} \cup (IF n.pend = << >> THEN {Rel(MinTo(n.act, 1))} ELSE {})
\* the outputs of endpoint n against the recording
Same(n, ev) ==
    /\ On("C01") => n.o.dlv = ev.dlv /\ Counters(n.st, ev, {"rx", "data", "dup", "idErr"})
                   /\ Port0(Data(Bytes(n.o.tx))) = Port0(Data(ev.tx))  \* the answers of the link management
    /\ On("C02") => n.o.done = ev.done /\ Counters(n.st, ev, {"ack", "tx", "retx"})
    /\ On("C03") => Data(Bytes(n.o.tx)) = Data(ev.tx)
    /\ On("C04") => Nacks(Bytes(n.o.tx)) = Nacks(ev.tx) /\ Counters(n.st, ev, {"rx", "sync", "mic"})
    /\ On("C05") => Acks(Bytes(n.o.tx)) = Acks(ev.tx)
    /\ On("C06") => ev.own
    /\ On("C07") => ev.tok /\ ev.arm \in Armed(n)
    /\ On("PY") => /\ n.o.dlv = ev.dlv /\ n.o.done = ev.done /\ Data(Bytes(n.o.tx)) = Data(ev.tx) /\ Acks(Bytes(n.o.tx)) = Acks(ev.tx)
                   /\ Counters(n.st, ev, DOMAIN ZERO)
Item(n, it) == CASE it.k = "frame" -> LET n1 == Bump(n, "rx") IN IF hook THEN n1 ELSE RxFrame(n1, Decode(it.b))
                 [] it.k = "mic"   -> RxMic(n, Fields(it.b))
                 [] it.k = "nack"  -> RxSync(n, it.s)
LOCAL FoldItems(n, s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN n ELSE Item(F[i - 1], s[i]) IN F[Len(s)]
Set(x, n) == e' = [e EXCEPT ![x] = n]
Do(ev, n) == /\ Same(n, ev) /\ Set(ev.x, n) /\ UNCHANGED hook
Cur(ev) == Clear(e[ev.x])
Reset(ev) == e' = [x \in {0, 1} |-> [NewEp EXCEPT !.syn = ev.syn]] /\ r' = [x \in {0, 1} |-> NewRx] /\ hook' = ev.hook
Rx(ev) == LET r1 == RxBytes(r[ev.x], ev.b)
              frames == SelectSeq(r1.found, LAMBDA it : it.k = "frame")
          IN /\ r' = [r EXCEPT ![ev.x] = r1]
             /\ Do(ev, FoldItems(Cur(ev), r1.found))
             /\ (On("C04") /\ hook) => ev.frames = [i \in DOMAIN frames |-> frames[i].b]
Hal(ev) == /\ On("C06") => ev.intact
           /\ Do(ev, HalDone(Cur(ev), Fields(ev.b))) /\ UNCHANGED r
Quiet(n) == n.act = << >> /\ n.queue = << >> /\ n.pend = << >>
Drained(ev) == /\ (On("C02") \/ On("PY")) => ev.all /\ \A x \in {0, 1} : Quiet(e[x])
               /\ e' = [x \in {0, 1} |-> [e[x] EXCEPT !.held = 0]] /\ UNCHANGED <<r, hook>>
Validate(ev) ==
    LET n == Len(ev.b)
        v == IF n < HDR THEN <<13, -1>> ELSE IF ~HdrOk(ev.b) THEN <<4, -1>> ELSE IF ev.b[5] > MAXPAY THEN <<15, -1>>
             ELSE LET sz == ev.b[5] + HDR + FTR IN
                  IF n < sz THEN <<14, sz>> ELSE IF FrameOk(ev.b, sz) THEN <<0, sz>> ELSE <<9, sz>>
    IN /\ On("C04") => ev.rc = v[1] /\ ev.rc2 = v[1] /\ (ev.rc \in {0, 14} => ev.n = v[2])
       /\ UNCHANGED vars
Make(ev) == /\ On("C03") => ev.b = Encode([t |-> IF ev.isack THEN "ack" ELSE "data", id |-> ev.id % IDS, port |-> ev.port, msg |-> ev.msg,
                                           def |-> ev.def, pay |-> ev.pay])
            /\ UNCHANGED vars
Step(ev) ==
    CASE ev.op = "reset"  -> Reset(ev)
      [] ev.op = "send"   -> Do(ev, Send(Cur(ev), ev.port, ev.msg, ev.def, ev.pay)) /\ UNCHANGED r
      [] ev.op = "hal"    -> Hal(ev)
      [] ev.op = "rx"     -> Rx(ev)
      [] ev.op = "timer"  -> Do(ev, TimerFire(Cur(ev))) /\ UNCHANGED r
      [] ev.op = "poll"   -> Do(ev, LET n == Cur(ev) IN IF Need(n) = 0 THEN TimerFire(n) ELSE n) /\ UNCHANGED r
      [] ev.op = "toolong" -> ev.refused /\ Do(ev, Cur(ev)) /\ UNCHANGED r
      [] ev.op = "resync" -> Do(ev, Resync(Cur(ev))) /\ UNCHANGED r
      [] ev.op = "rel"    -> Do(ev, [Cur(ev) EXCEPT !.held = 0]) /\ UNCHANGED r
      [] ev.op = "adv"    -> e' = [x \in {0, 1} |-> Tick(e[x], ev.d)] /\ UNCHANGED <<r, hook>>
      [] ev.op = "probe"  -> /\ On("C06") => ev.big = 1 + Buffers(e[ev.x]) /\ ev.small = e[ev.x].acks
                             /\ UNCHANGED vars
      [] ev.op = "drained" -> Drained(ev)
      [] ev.op = "validate" -> Validate(ev)
      [] ev.op = "make"   -> Make(ev)
      [] OTHER -> FALSE
TraceInit == l = 1 /\ e = [x \in {0, 1} |-> NewEp] /\ r = [x \in {0, 1} |-> NewRx] /\ hook = FALSE
TraceNext == /\ l <= Len(Trace)
             /\ Step(Trace[l])
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

---- MODULE TracePattern ----
EXTENDS Pattern, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Half(k) == IF k = 0 THEN <<0, 0>> ELSE IF k <= 16 THEN <<0, 2^(k - 1)>> ELSE <<2^(k - 17), 0>>
ShiftOf == [w \in {Half(k) : k \in 0..32} |-> CHOOSE k \in 0..32 : Half(k) = w]
Kind(hi, lo) == IF hi + lo = 65535 THEN [k |-> "c", v |-> lo]
                ELSE IF <<hi, lo>> \in DOMAIN ShiftOf THEN [k |-> "s", v |-> ShiftOf[<<hi, lo>>]]
                ELSE [k |-> "x", v |-> 0]
Raw(w) == IF w.k = "s" THEN Half(w.v) ELSE <<65535 - w.v, w.v>>
\* the Python receiver does not report duplicates
Dup(e) == IF "dup" \in DOMAIN e THEN e.dup ELSE 0
Counts(e) == {"rcv", "err", "resync", "missing", "dup"} \cap DOMAIN e
Step(e) ==
    CASE e.op = "reset" -> Reset
      [] e.op = "tx" -> Tx(Len(e.words)) /\ ~e.over /\ e.words = [i \in 1..Len(e.words) |-> Raw(act'.words[i])]
      [] e.op = "txskip" -> TxSkip(e.n)
      [] e.op = "rx" -> Rx(Kind(e.hi, e.lo), e.missing, Dup(e)) /\ \A f \in Counts(e) : e[f] = act'[f]
      [] e.op = "rxseg" -> RxSeg(e.p, e.n) /\ \A f \in Counts(e) : e[f] = act'[f]
      [] OTHER -> FALSE
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Step(Trace[l])
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====

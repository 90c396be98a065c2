---- MODULE TraceBbuf ----
EXTENDS Bbuf, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
    CASE e.op = "reset" -> Len(e.mem) = e.n /\ Start(e.mem)
      [] e.op = "seek" -> Seek(e.wr, e.rd)
      [] e.op = "enc" -> Enc(e.v, e.big)
      [] e.op = "dec" -> Dec(Len(e.v), e.big) /\ got' = e.v
      [] e.op = "menc" -> EncAt(e.p, e.v, e.big)
      [] e.op = "mdec" -> DecAt(e.p, Len(e.v), e.big) /\ got' = e.v
      [] OTHER -> FALSE
TraceInit == mem = << >> /\ wr = 0 /\ rd = 0 /\ got = << >> /\ l = 1 /\ act = [op |-> "none"]
TraceNext == /\ l <= Len(Trace)
             /\ Step(Trace[l])
             /\ mem' = Trace[l].mem /\ wr' = Trace[l].wr /\ rd' = Trace[l].rd
             /\ act' = Trace[l]
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====

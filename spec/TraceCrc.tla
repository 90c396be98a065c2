---- MODULE TraceCrc ----
EXTENDS CrcStream, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
    CASE e.op = "reset" -> Reset
      [] e.op = "start" -> Start(e.k, e.v)
      [] e.op = "put" -> Put(e.k, e.s)
      [] e.op = "gen" -> PutGen(e.k, e.n, e.a, e.b)
      [] e.op = "null" -> PutNull(e.k, e.n)
      [] e.op = "table" -> Table(e.k, e.x, e.a, e.r)
      [] OTHER -> FALSE
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Step(Trace[l])
             /\ act' = Trace[l]
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====

---- MODULE TraceLfsr ----
EXTENDS Lfsr, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
    CASE e.op = "reset" -> Reset
      [] e.op = "seed" -> Seed(e.s)
      [] e.op = "u1" -> U1
      [] e.op = "u8" -> U8
      [] e.op = "u16" -> U16
      [] e.op = "u32" -> U32
      [] e.op = "table" -> Table(e.out, e.a, e.r)
      [] e.op = "follow" -> Follow(e.b)
      [] OTHER -> FALSE
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Step(Trace[l])
             /\ act' = Trace[l]
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====

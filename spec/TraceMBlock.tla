---- MODULE TraceMBlock ----
EXTENDS MBlock, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
    CASE e.op = "reset" -> Reset(e.mem, e.bs)
      [] e.op = "again" -> Again(e.mem, e.bs)
      [] e.op = "alloc" -> Alloc(e.h, e.safe, e.size, e.off)
      [] e.op = "free"  -> Free(e.h)
      [] e.op = "misuse" -> Misuse(e.kind, e.off, e.size)
      [] OTHER          -> FALSE
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Step(Trace[l])
             /\ act' = Trace[l]
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====

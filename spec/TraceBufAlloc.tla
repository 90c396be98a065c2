---- MODULE TraceBufAlloc ----
EXTENDS BufAlloc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
    CASE e.op = "reset" -> Reset(e.cnt, e.inst)
      [] e.op = "again" -> Again(e.cnt, e.inst)
      [] e.op = "alloc" -> Alloc(e.h, e.safe, e.size, e.off, e.hoff, e.hsz)
      [] e.op = "free"  -> Free(e.h)
      [] OTHER          -> FALSE
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Step(Trace[l])
             /\ act' = Trace[l]
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====

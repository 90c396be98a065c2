------------------------------ MODULE TracePool ------------------------------
EXTENDS Pool, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
    CASE e.op = "reset"    -> Reset(e.n, e.size, e.inst)
      [] e.op = "again"    -> Again(e.n, e.size, e.inst)
      [] e.op = "alloc"    -> Alloc(e.h, e.safe, e.off)
      [] e.op = "free"     -> Free(e.h)
      [] e.op = "drain"    -> Drain(e.rev, e.off)
      [] e.op = "is_empty" -> IsEmpty
      [] OTHER             -> FALSE
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Step(Trace[l])
             /\ act' = Trace[l]
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

---- MODULE TraceObjPool ----
EXTENDS ObjPool, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
    CASE e.op = "reset" -> Reset(e.n1, e.n2, e.size1, e.size2, e.inst1, e.inst2, e.ctor, e.dtor)
      [] e.op = "again" -> Again(e.q, e.n, e.size, e.inst)
      [] e.op = "alloc" -> Alloc(e.h, e.q, e.off)
      [] e.op = "incr"  -> Incr(e.h, e.n)
      [] e.op = "decr"  -> Decr(e.h, e.n)
      [] e.op = "decrn" -> DecrNest(e.h, e.g, e.off)
      [] e.op = "dead"  -> UseDead(e.h, e.which)
      [] OTHER          -> FALSE
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Step(Trace[l])
             /\ act' = Trace[l]
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====

---- MODULE TraceStrMap ----
EXTENDS StrMap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
    CASE e.op = "reset"  -> Reset(e.kind, e.hv)
      [] e.op = "put"    -> Put(e.k, e.v, e.ask)
      [] e.op = "get"    -> Get(e.k)
      [] e.op = "remove" -> Remove(e.k, e.ask)
      [] e.op = "bulk"   -> Bulk(e.a, e.b)
      [] e.op = "bulkrm" -> BulkRemove(e.a, e.b)
      [] e.op = "sweep"  -> Sweep(e.a, Len(e.v))
      [] e.op = "free"   -> Free
      [] OTHER           -> FALSE
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Step(Trace[l])
             /\ act' = Trace[l]
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====

---- MODULE TraceIntMap ----
EXTENDS IntMap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
    CASE e.op = "reset"     -> Reset(e.stride, e.base)
      [] e.op = "put"       -> Put(e.k, e.v, e.ask)
      [] e.op = "get"       -> Get(e.k)
      [] e.op = "remove"    -> Remove(e.k, e.ask)
      [] e.op = "iter_new"  -> IterNew(e.i)
      [] e.op = "iter_next" -> IF e.rc = 0 THEN IterNext(e.i, e.k) ELSE IterEnd(e.i)
      [] e.op = "iter_free" -> IterFree(e.i)
      [] e.op = "bulk"      -> Bulk(e.a, e.b, e.step)
      [] e.op = "bulkrm"    -> BulkRemove(e.a, e.b, e.step)
      [] e.op = "sweep"     -> Sweep(e.a, Len(e.v))
      [] e.op = "iter_keys" -> IterKeys(e.i, e.ks)
      [] e.op = "free"      -> Free
      [] OTHER              -> FALSE
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Step(Trace[l])
             /\ act' = Trace[l]
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====

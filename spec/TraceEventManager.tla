---- MODULE TraceEventManager ----
EXTENDS EventManager, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
    CASE e.op = "reset"     -> Reset(e.base)
      [] e.op = "schedule"  -> Schedule(e.tag, e.ts, e.id)
      [] e.op = "bulk"      -> Bulk(e.ids)
      [] e.op = "cancel"    -> Cancel(e.id)
      [] e.op = "query"     -> Query(e.t)
      [] e.op = "process"   -> ProcBegin(e.now)
      [] e.op = "fire"      -> Fire(e.id, e.tag)
      [] e.op = "cb_end"    -> CbEnd
      [] e.op = "processed" -> ProcEnd
      [] e.op = "free"      -> Free
      [] OTHER              -> FALSE
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Step(Trace[l])
             /\ act' = Trace[l]
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====

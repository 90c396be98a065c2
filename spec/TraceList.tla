---- MODULE TraceList ----
EXTENDS List, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
    CASE e.op = "reset"         -> Reset(Len(e.fw), e.ni)
      [] e.op = "add_head"      -> AddHead(e.k, e.i)
      [] e.op = "add_tail"      -> AddTail(e.k, e.i)
      [] e.op = "fill"          -> Fill(e.k, e.a, e.b)
      [] e.op = "remove_head"   -> RemoveHead(e.k)
      [] e.op = "remove_tail"   -> RemoveTail(e.k)
      [] e.op = "remove"        -> Unlink(e.i)
      [] e.op = "insert_before" -> InsertBefore(e.p, e.i)
      [] e.op = "insert_after"  -> InsertAfter(e.p, e.i)
      [] e.op = "append"        -> AppendAll(e.k, e.s)
      [] e.op = "query"         -> Query(e.k, e.i, e.x)
      [] e.op = "iterate"       -> Iterate(e.k, e.rev, e.safe, e.rm)
      [] OTHER                  -> FALSE
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Step(Trace[l])
             /\ act' = Trace[l]
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====

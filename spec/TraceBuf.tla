---- MODULE TraceBuf ----
EXTENDS Buf, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
    CASE e.op = "reset"   -> /\ Reset(e.s[1].cap, e.s[2].cap)
                             /\ ("want" \in DOMAIN e => e.want = <<e.s[1].cap, e.s[2].cap>>)
      [] e.op = "write"   -> Write(e.k, e.d)
      [] e.op = "wint"    -> WriteInt(e.k, e.be, e.v)
      [] e.op = "read"    -> Read(e.k, e.n, << >>)
      [] e.op = "rint"    -> ReadInt(e.k, e.be, e.w)
      [] e.op = "copy"    -> Copy(e.k, e.n)
      [] e.op = "wstr"    -> WriteStr(e.k, e.d, e.trunc)
      [] e.op = "seek"    -> Seek(e.k, e.i)
      [] e.op = "erase"   -> Erase(e.k, e.from, e.to)
      [] e.op = "rewind"  -> Rewind(e.k, e.clear)
      [] e.op = "reinit"  -> Reinit(e.k)
      [] e.op = "reserve" -> Reserve(e.k, e.r)
      [] OTHER            -> FALSE
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Step(Trace[l])
             /\ act' = [f \in DOMAIN Trace[l] \ {"want"} |-> Trace[l][f]]    \* want: the capacities asked for
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====

---- MODULE TraceStream ----
EXTENDS Stream, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
    CASE e.op = "reset"     -> Reset(e.data, e.buf, e.tb, e.dst, e.wfn, e.link, e.sdn, e.kdn, e.pr)
      [] e.op = "open"      -> Open(e.arg)
      [] e.op = "configure" -> Configure(e.data, e.dn)
      [] e.op = "close"     -> Close(e.fid, e.status, e.t)
      [] e.op = "src_in"    -> SrcIn(e.t, e.inj)
      [] e.op = "src_out"   -> SrcOut(e.t)
      [] e.op = "src_done"  -> SrcDone(e.status)
      [] e.op = "snk_in"    -> SnkIn(e.t, e.inj)
      [] e.op = "snk_out"   -> SnkOut(e.t)
      [] e.op = "snk_write" -> SnkWrite(e.data)
      [] e.op = "snk_done"  -> SnkDone(e.data)
      [] e.op = "receive"   -> Receive(e.cap, e.dn)
      [] e.op = "idle"      -> Idle
      [] OTHER              -> FALSE
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Step(Trace[l])
             /\ act' = Trace[l]
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====

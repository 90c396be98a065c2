---- MODULE TraceFsm ----
EXTENDS Fsm, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
    CASE e.op = "reset"       -> Reset(e.st, e.tr, e.m, e.ef)
      [] e.op = "event"       -> Event(e.e)
      [] e.op = "handler"     -> Handler(e.i, e.e, e.s)
      [] e.op = "handler_ret" -> HandlerRet(e.v)
      [] e.op = "exit"        -> Exit(e.s)
      [] e.op = "exit_ret"    -> ExitRet
      [] e.op = "enter"       -> Enter(e.s)
      [] e.op = "enter_ret"   -> EnterRet
      [] e.op = "post"        -> Post(e.e)
      [] e.op = "done"        -> Done(e.s, e.init, e.log)
      [] e.op = "fatal"       -> IF In THEN Overflow ELSE BadInit
      [] e.op = "refused"     -> BadTable
      [] OTHER                -> FALSE
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Step(Trace[l])
             /\ act' = Trace[l]
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====

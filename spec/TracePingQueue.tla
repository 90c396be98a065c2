--------------------------- MODULE TracePingQueue ---------------------------
EXTENDS PingQueue, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
    CASE e.op = "reset"   -> Start(e.count)
      [] e.op = "process" -> Poll
      [] e.op = "rx"      -> Response(e.id, e.k)
      [] e.op = "done"    -> Report(e.id, e.status)
      [] e.op = "adv"     -> Wait(e.d)
      [] OTHER            -> FALSE
TraceInit == total = 0 /\ gen = 0 /\ q = << >> /\ n = <<0, 0, 0, 0>> /\ delay = 0 /\ sent = << >> /\ act = [op |-> "none"] /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Step(Trace[l])
             /\ (Trace[l].op # "adv" => sent' = Trace[l].sent /\ n' = Trace[l].n)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

---- MODULE TraceCli ----
EXTENDS Cli, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
    CASE e.op = "reset"   -> Configure(e.mode, e.prompt, e.echo, e.user, e.verbose, e.print)
      [] e.op = "echo"    -> SetEcho(e.echo, e.user)
      [] e.op = "verbose" -> SetVerbose(e.v)
      [] e.op = "feed"    -> Feed(e.cs)
      [] e.op = "rub"     -> Rub(e.ch)
      [] e.op = "eol"     -> EndLine(e.ch, e.rc)
      [] e.op = "parse"   -> IF Len(e.cs) < LEN THEN Parse(e.cs, e.rc) ELSE ParseLong(e.cs, e.runs, e.cmd, e.ret)
      [] OTHER            -> FALSE
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Step(Trace[l])
             /\ act' = Trace[l]
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====

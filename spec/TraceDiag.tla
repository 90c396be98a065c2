---- MODULE TraceDiag ----
EXTENDS Diag, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
    CASE e.op = "reset" -> Reset
      [] e.op = "fatal_set" -> FatalSet(e.h)
      [] e.op = "print_set" -> PrintSet(e.h)
      [] e.op = "log_init" -> LogInit(e.h) /\ e.r = 0
      [] e.op = "log_fini" -> LogInit(0)
      [] e.op = "level" -> Level(e.l, e.g)
      [] e.op = "lib_init" -> LibInit
      [] e.op = "alloc_set" -> AllocSet(e.a, e.f)
      [] e.op = "alloc" -> Alloc(e.kind, e.i, e.n, e.fail) /\ e.ok = AllocOk(e.fail) /\ e.zero
      [] e.op = "free" -> Free(e.kind, e.i)
      [] e.op = "say" -> Say(e.line, e.msg)
      [] e.op = "log" -> Log(e.l, e.at, e.how, e.s)
      [] e.op = "loglong" -> LogLong(e.l, e.at, e.n)
      [] e.op = "dbc" -> Dbc(e.m, e.a, e.b) /\ e.passed /\ e.r = 0
      [] e.op = "arg" -> Arg(e.m, e.a, e.b) /\ e.r = ArgReturns(e.m, e.a, e.b) /\ e.passed = (e.r = 0)
      [] e.op = "onerr" -> OnError(e.m, e.a, e.b) /\ <<e.r, e.passed>> = OnErrorResult(e.m, e.a, e.b)
      [] e.op = "ec" -> Ec(e.e) /\ <<e.name, e.text>> = Code(e.e)
      [] e.op = "pyec" -> /\ Ec(e.e) /\ e.count = Len(Codes)
                          /\ IF e.e \in 0..(Len(Codes) - 1) THEN e.name = Codes[e.e + 1][1] /\ e.back = e.e /\ e.attr = e.e ELSE e.name = ""
      [] e.op = "levels" -> Same(<< >>) /\ e.names = Names /\ e.chars = Chars
      [] OTHER -> FALSE
TraceInit == /\ fatal = 0 /\ print = 0 /\ log = "none" /\ level = 6 /\ global = 10 /\ alloc = "none" /\ free = "none" /\ live = {} /\ out = << >>
             /\ l = 1 /\ act = [op |-> "none"]
TraceNext == /\ l <= Len(Trace)
             /\ Step(Trace[l])
             /\ IF Trace[l].op \in {"reset", "pyec"} THEN TRUE ELSE out' = Trace[l].calls
             /\ act' = Trace[l]
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====

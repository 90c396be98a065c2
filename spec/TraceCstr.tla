---- MODULE TraceCstr ----
EXTENDS Cstr, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
V(e) == [neg |-> e.neg, m |-> e.m]
Step(e) ==
    CASE e.op = "reset" -> out' = [u32 |-> NoNum, i32 |-> NoNum, index |-> 0, bool |-> FALSE]
      [] e.op = "u32" -> ToU32(e.s, e.ok, V(e))
      [] e.op = "i32" -> ToI32(e.s, e.ok, V(e))
      [] e.op = "i32s" -> ToI32s(e.s, e.x, e.ok, V(e))
      [] e.op = "index" -> Index(e.s, e.t, e.ok, e.v)
      [] e.op = "bool" -> Bool(e.s, e.ok, e.v)
      [] e.op = "copy" -> Copy(e.s, e.null, e.n, e.rc, e.got) /\ ~e.over
      [] e.op = "case" -> Case(e.a, e.b, e.r)
      [] e.op = "prefix" -> Prefix(e.s, e.p, e.r)
      [] e.op = "upper" -> ToUpper(e.s, e.r) /\ "rc" \notin DOMAIN e
      [] e.op = "nibbles" -> Nibbles(e.h, e.x)
      [] OTHER -> FALSE
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Step(Trace[l])
             /\ act' = Trace[l]
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====

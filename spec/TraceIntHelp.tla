---- MODULE TraceIntHelp ----
EXTENDS IntHelp, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, mem
W == INSTANCE Wide
\* the same laws on 64 bit values: sign, range, and the multiple q * m next to x away from zero
WideSign(x) == IF W!IsNeg(x) THEN -1 ELSE IF x = W!Zero THEN 0 ELSE 1
WideRestrict(x, a, b) == IF W!Less(x, a) THEN a ELSE IF W!Less(b, x) THEN b ELSE x
IsRound(x, m, q, y) == /\ y = W!Mul(q, m)
                       /\ y # W!Zero => WideSign(y) = WideSign(x)
                       /\ ~W!Less(W!Abs(y), W!Abs(x)) /\ W!Less(W!Abs(y), W!Add(W!Abs(x), m))
Same == mem' = mem
Step(e) ==
    CASE e.op = "reset" -> mem' = e.mem
      [] e.op = "bits" -> \* clz and upper of hi, lo .. lo + n - 1
            /\ Same
            /\ \A i \in 1..Len(e.clz) : e.clz[i] = Clz(<<e.hi, e.lo + i - 1>>)
            /\ \A i \in 1..Len(e.up) : UpperDefined(<<e.hi, e.lo + i - 1>>) => e.up[i] = Upper(<<e.hi, e.lo + i - 1>>)
      [] e.op = "round" -> Same /\ \A i \in 1..Len(e.r) : e.r[i] = RoundUp(e.x + i - 1, e.m)
      [] e.op = "restrict" -> Same /\ e.r = Restrict(e.x, e.a, e.b)
      [] e.op = "sign" -> Same /\ e.r = Signum(e.x)
      [] e.op = "wide" -> /\ Same /\ e.same /\ e.g = WideSign(W!Ext(e.x))
                          /\ W!Ext(e.r) = WideRestrict(W!Ext(e.x), W!Ext(e.a), W!Ext(e.b))
                          /\ IsRound(W!Ext(e.x), W!Ext(e.m), W!Ext(e.q), W!Ext(e.y))
      [] e.op = "container" -> Same /\ e.ok
      [] e.op = "set" -> mem' = Set(mem, e.p, e.v, e.n)
      [] e.op = "copy" -> mem' = Copy(mem, e.d, e.s, e.n)
      [] OTHER -> FALSE
TraceInit == l = 1 /\ mem = << >>
TraceNext == /\ l <= Len(Trace)
             /\ Step(Trace[l])
             /\ IF Trace[l].op \in {"set", "copy"} THEN mem' = Trace[l].mem ELSE TRUE
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<mem, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====

--------------------------- MODULE TraceLogCheck ----------------------------
EXTENDS LogCheck, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
AsSet(s) == {s[i] : i \in DOMAIN s}
Step(e) ==
    CASE e.op = "reset"  -> n' = 0 /\ live' = Empty /\ past' = Empty /\ out' = << >> /\ act' = e
      [] e.op = "alloc"  -> Alloc(e.p)
      [] e.op = "free"   -> Free(e.p)
      [] e.op = "other"  -> Other
      \* the reports on the whole log so far
      [] e.op = "report" -> /\ SelectSeq(e.r, LAMBDA x : x.kind # "left") = out
                            /\ LET left == SelectSeq(e.r, LAMBDA x : x.kind = "left") IN AsSet(left) = Left /\ Len(left) = Cardinality(Left)
                            /\ UNCHANGED vars
      [] OTHER -> FALSE
TraceInit == Init /\ l = 1
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

SPECIFICATION TraceSpec
INVARIANTS Inside
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

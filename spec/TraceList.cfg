SPECIFICATION TraceSpec
INVARIANTS OnePlace Known
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

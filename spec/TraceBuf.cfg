SPECIFICATION TraceSpec
INVARIANTS Bounds
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

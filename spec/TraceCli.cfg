SPECIFICATION TraceSpec
INVARIANTS Kept
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

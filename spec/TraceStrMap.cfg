SPECIFICATION TraceSpec
INVARIANTS Sane
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION TraceSpec
INVARIANTS Counted Capacity
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

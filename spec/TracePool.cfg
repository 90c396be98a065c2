SPECIFICATION TraceSpec
INVARIANTS Capacity
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION TraceSpec
INVARIANTS Sorted Apart
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

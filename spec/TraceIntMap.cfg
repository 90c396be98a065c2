SPECIFICATION TraceSpec
INVARIANTS Owed
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

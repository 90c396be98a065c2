SPECIFICATION TraceSpec
INVARIANTS Prefix Bounded Accounted
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION TraceSpec
INVARIANTS QueueBound Quiet
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

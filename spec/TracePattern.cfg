SPECIFICATION TraceSpec
CONSTANTS
  SHIFTS = 33
  COUNTS = 65536
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION TraceSpec
CONSTANTS
  DEPTH = 3
  TIMEOUT = 5120
  DELAY = 1024
  IDS = 256
INVARIANTS Account Depth Ordered Bounded
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

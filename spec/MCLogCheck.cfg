SPECIFICATION MCSpec
CONSTANTS
  P = {1, 2}
  LINES = 5
INVARIANTS Exact LeftOk Places Silent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

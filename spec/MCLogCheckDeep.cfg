SPECIFICATION MCSpec
CONSTANTS
  P = {1, 2, 3}
  LINES = 6
INVARIANTS Exact LeftOk Places Silent
CHECK_DEADLOCK FALSE

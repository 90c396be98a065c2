SPECIFICATION MCSpec
CONSTANTS
  SHIFTS = 33
  COUNTS = 65536
  JUMPS = {1, 2, 65, 66, 131072, 2162687, 2162688, 2162689, 2162690, 4194304, 4325310, 4325374, 4325375}
  BREAKS = 2
  WORDS = 13
  STARTS = {0, 1, 64, 131070, 4325373}
  GARBAGE = TRUE
INVARIANT Accounted
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
VIEW View

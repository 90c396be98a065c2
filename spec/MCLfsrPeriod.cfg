SPECIFICATION PSpec
CONSTANTS
  SEEDS = {1}
  FLIPS = {1}
INVARIANT Nonzero
POSTCONDITION Period
CHECK_DEADLOCK FALSE
VIEW PView

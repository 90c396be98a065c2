SPECIFICATION MCSpec
CONSTANTS
  DEPTH = 3
  TIMEOUT = 5120
  DELAY = 1024
  IDS = 256
  TOTAL = 4
  LOSSES = 1
  FAILS = 1
  STEP = 2560
  STRAYS = 1
VIEW View
INVARIANTS Account Depth Ordered Bounded Truth
PROPERTIES NoFalseMissing Ack
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

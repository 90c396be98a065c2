SPECIFICATION MCSpec
CONSTANTS
  DEPTH = 3
  TIMEOUT = 5120
  DELAY = 1024
  IDS = 256
  TOTAL = 7
  LOSSES = 2
  FAILS = 2
  STEP = 2560
  STRAYS = 2
VIEW View
INVARIANTS Account Depth Ordered Bounded Truth
PROPERTIES NoFalseMissing Ack
CHECK_DEADLOCK FALSE

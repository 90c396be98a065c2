SPECIFICATION MCSpec
CONSTANTS
  WINDOW = 3
  IDS = 16
  RETRIES = 16
  TXTO = 256
  RXTO = 820
  PORTS = 16
  COUNT = FALSE
  SEND0 = 5
  SEND1 = 3
  PORT0 = 1
  PORT1 = 1
  LOSSES = 1
  CORRUPTS = 1
  DUPS = 0
  SLOW = 0
  DELAY = 0
  START = 12
  EAGER = TRUE
  RESYNCS = 0
VIEW Abs
INVARIANTS InOrder Content Confirmed Account Window Owned Alive DoneWhenStuck
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS
  WINDOW = 3
  IDS = 16
  RETRIES = 16
  TXTO = 256
  RXTO = 820
  PORTS = 16
  COUNT = FALSE
  SEND0 = 4
  SEND1 = 0
  PORT0 = 1
  PORT1 = 1
  LOSSES = 2
  CORRUPTS = 0
  DUPS = 0
  SLOW = 1
  DELAY = 100
  START = 0
  EAGER = TRUE
  RESYNCS = 0
VIEW Abs
INVARIANTS InOrder Content Confirmed Account Window Owned Alive DoneWhenStuck
CHECK_DEADLOCK FALSE

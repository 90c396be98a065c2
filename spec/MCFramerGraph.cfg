SPECIFICATION MCSpec
CONSTANTS
  WINDOW = 3
  IDS = 16
  RETRIES = 16
  TXTO = 256
  RXTO = 820
  PORTS = 16
  COUNT = FALSE
  SEND0 = 3
  SEND1 = 0
  PORT0 = 1
  PORT1 = 1
  LOSSES = 1
  CORRUPTS = 1
  DUPS = 0
  SLOW = 0
  DELAY = 0
  START = 0
  EAGER = FALSE
  RESYNCS = 0
VIEW Abs
INVARIANTS InOrder Content Confirmed Account Window Owned Alive DoneWhenStuck
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS
  WINDOW = 3
  IDS = 16
  RETRIES = 1
  TXTO = 256
  RXTO = 820
  PORTS = 16
  COUNT = FALSE
  SEND0 = 5
  SEND1 = 0
  PORT0 = 1
  PORT1 = 1
  LOSSES = 3
  CORRUPTS = 0
  DUPS = 0
  SLOW = 0
  DELAY = 0
  START = 0
  EAGER = TRUE
  RESYNCS = 0
VIEW Abs
INVARIANTS Increasing Content ConfirmedEach Account Window Owned Alive
CHECK_DEADLOCK FALSE

SPECIFICATION Fair
CONSTANTS
  WINDOW = 3
  IDS = 16
  RETRIES = 1
  TXTO = 256
  RXTO = 820
  PORTS = 16
  COUNT = FALSE
  SEND0 = 3
  SEND1 = 0
  PORT0 = 1
  PORT1 = 1
  LOSSES = 4
  CORRUPTS = 0
  DUPS = 0
  SLOW = 0
  DELAY = 0
  START = 0
  EAGER = TRUE
  RESYNCS = 0
PROPERTY AllEnd
CHECK_DEADLOCK FALSE

SPECIFICATION TraceSpec
CONSTANTS
  WINDOW = 3
  IDS = 16
  RETRIES = 16
  TXTO = 268435456
  RXTO = 858993459
  PORTS = 16
  COUNT = TRUE
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION TraceSpec
CONSTANTS
  WINDOW = 3
  IDS = 16
  RETRIES = 16
  TXTO = 256
  RXTO = 820
  PORTS = 16
  COUNT = TRUE
  AppRx <- MasterRx
  AppDone <- MasterDone
INVARIANT Account
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

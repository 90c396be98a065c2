SPECIFICATION Fair
CONSTANTS MaxLen = 4
          Bufs = {0, 2}
          Tbs = {0, 1, 3}
          Caps = {0, 1, 3, 6}
          MaxReceive = 0
          MaxOpen = 2
INVARIANTS Prefix Bounded Accounted Once
PROPERTIES Whole Ends
CHECK_DEADLOCK FALSE

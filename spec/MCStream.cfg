SPECIFICATION Spec
CONSTANTS MaxLen = 3
          Bufs = {0, 2}
          Tbs = {0, 2}
          Caps = {0, 3, 4}
          MaxReceive = 1
          MaxOpen = 1
VIEW Abs
INVARIANTS Prefix Bounded Accounted Once
PROPERTY Whole
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

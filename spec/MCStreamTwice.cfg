SPECIFICATION Spec
CONSTANTS MaxLen = 3
          Bufs = {0, 2}
          Tbs = {0, 2}
          Caps = {0, 4}
          MaxReceive = 2
          MaxOpen = 1
VIEW Abs
INVARIANTS Prefix Bounded Accounted Once
PROPERTY Whole

CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit

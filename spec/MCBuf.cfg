SPECIFICATION Spec
CONSTANTS Caps = {2}
          MaxCap = 2
VIEW Abs
INVARIANTS Bounds
PROPERTIES FatalIsNoOp ReserveKept
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

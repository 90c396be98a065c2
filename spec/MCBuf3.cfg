SPECIFICATION Spec
CONSTANTS Caps = {3}
          MaxCap = 3
VIEW Abs
INVARIANTS Bounds
PROPERTIES FatalIsNoOp ReserveKept
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxEv = 3
          Times = {0, 1, 2}
          MaxDepth = 1
VIEW Abs
CONSTRAINT Bound
INVARIANTS Sorted Distinct Apart
PROPERTIES NotEarly NoneLeft
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

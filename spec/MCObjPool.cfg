SPECIFICATION Spec
CONSTANTS Handles = {1, 2, 3, 4}
          RcMax = 3
VIEW Abs
INVARIANTS Exclusive Counted Capacity
PROPERTY Released
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Handles = {1, 2, 3}
          Mems = {7, 18, 24}
          BS = 4
VIEW Abs
INVARIANTS Exclusive Inside BigEnough FitsAny EmptyFits
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

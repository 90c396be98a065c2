SPECIFICATION Spec
CONSTANTS Handles = {1, 2, 3, 4}
VIEW Abs
INVARIANTS Exclusive Capacity
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

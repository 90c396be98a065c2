SPECIFICATION Spec
CONSTANTS Handles = {1, 2, 3, 4, 5}
          Counts = {1, 2, 3, 4}
          Size = 8
VIEW Abs
INVARIANTS Exclusive Inside Capacity
PROPERTY Refuses
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

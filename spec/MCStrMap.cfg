SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3, 4}
          Vals = {1, 2}
VIEW Abs
INVARIANTS Sane
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

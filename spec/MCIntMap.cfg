SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3}
          Vals = {1, 2}
          Iters = {1, 2}
VIEW Abs
INVARIANTS Owed
PROPERTY NoRepeat
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Alphabet = {97, 32, 35, 44}
          Fills = {1, 2, 3, 4}
          Near = {61, 62, 63, 64, 65, 66}
VIEW Abs
CONSTRAINT Bound
INVARIANT Kept
PROPERTY Whole
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS Alphabet = {9, 32, 43, 44, 45, 46, 48, 49, 57, 97, 120}
          MaxLen = 4
VIEW MCView
INVARIANTS Blank Signs Whole Scale Strict
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS Alphabet = {9, 32, 43, 44, 45, 46, 48, 49, 57, 97, 120}
          MaxLen = 5
VIEW MCView
INVARIANTS Blank Signs Whole Scale Strict
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 3
          Bytes = {1, 2}
          Widths = {1, 2}
VIEW View
INVARIANTS RoundTrip Bounds Halves
PROPERTIES Untouched
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

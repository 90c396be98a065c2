SPECIFICATION Spec
CONSTANTS N = 4
          Bytes = {1, 2}
          Widths = {1, 2, 4}
VIEW View
INVARIANTS RoundTrip Bounds Halves
PROPERTIES Untouched
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 8
          Bytes = {7}
          Widths = {1, 2, 4, 8}
VIEW View
INVARIANTS RoundTrip Bounds Halves
PROPERTIES Untouched
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT DEPTH = 4
INVARIANTS Complete Bounded
CHECK_DEADLOCK FALSE

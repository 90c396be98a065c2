SPECIFICATION Spec
CONSTANT DEPTH = 3
INVARIANTS Complete Bounded
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

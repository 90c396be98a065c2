SPECIFICATION Spec
CONSTANTS NI = 4
VIEW Abs
INVARIANTS OnePlace Known
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

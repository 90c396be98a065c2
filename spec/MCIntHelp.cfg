SPECIFICATION Spec
CONSTANTS MaxX = 70
          MaxM = 20
INVARIANTS Multiple Limits Leading PowerUp
CHECK_DEADLOCK FALSE

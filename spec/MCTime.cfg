SPECIFICATION Spec
CONSTANTS Q = 4
          MaxT = 70
          MaxZ = 20
INVARIANTS Unique Order Inverse Wide
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS Bytes = {0, 1, 128, 165, 255}
          MaxLen = 3
VIEW MCView
INVARIANTS Chained DetectBurst DetectWide Linear DetectTwo
CHECK_DEADLOCK FALSE

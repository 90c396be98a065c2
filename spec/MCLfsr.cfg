SPECIFICATION MCSpec
CONSTANTS
  SEEDS = {1, 2, 255, 256, 4660, 32768, 44257, 65535}
  FLIPS = {1,2,3,4,7,8,15,16,31,32,63,64,85,127,128,129,170,200,240,254,255}
INVARIANT InStep
CHECK_DEADLOCK FALSE
VIEW View

SPECIFICATION MCSpec
CONSTANTS
  N = 3
  Depth = 6
ACTION_CONSTRAINT Emit
INVARIANTS AtMostOne NoLostHandOver
CHECK_DEADLOCK FALSE

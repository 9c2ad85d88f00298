SPECIFICATION MCSpec
CONSTANTS
  N = 2
  A = 2
  Depth = 6
ACTION_CONSTRAINT Emit
INVARIANTS Once Settled
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS
  A = 2
  Depth = 5
ACTION_CONSTRAINT Emit
INVARIANTS Conserved
CHECK_DEADLOCK FALSE

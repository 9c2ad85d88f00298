SPECIFICATION MCSpec
CONSTANTS
  Full = TRUE
ACTION_CONSTRAINT Emit
INVARIANTS Pairwise Opposite
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS
  Paths3 = FALSE
  Depth = 2
ACTION_CONSTRAINT Emit
INVARIANTS OnTree
PROPERTIES Errs
CHECK_DEADLOCK FALSE

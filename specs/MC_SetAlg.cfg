SPECIFICATION MCSpec
CONSTANTS
  N = 4
  Types = {1}
ACTION_CONSTRAINT Emit
INVARIANT Laws
CHECK_DEADLOCK FALSE

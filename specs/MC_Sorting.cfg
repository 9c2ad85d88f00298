SPECIFICATION MCSpec
CONSTANTS
  Ks = {1, 2, 3}
  MaxLen = 4
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Progress
CHECK_DEADLOCK FALSE

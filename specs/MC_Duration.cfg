SPECIFICATION MCSpec
CONSTANTS
  D = 0
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Normal Panics
CHECK_DEADLOCK FALSE

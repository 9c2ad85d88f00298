SPECIFICATION MCSpec
CONSTANTS
  Types = {0, 1}
  N = 4
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Laws Back
CHECK_DEADLOCK FALSE

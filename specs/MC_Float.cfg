SPECIFICATION MCSpec
CONSTANTS
  Types = {0, 1}
  N = 7
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Laws Ordered Rounded
CHECK_DEADLOCK FALSE

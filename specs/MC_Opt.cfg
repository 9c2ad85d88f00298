SPECIFICATION MCSpec
CONSTANTS
  Xs = {0, 101, 200, 300}
  Types = {0, 1, 2, 3}
  Depth = 6
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Once
PROPERTIES Laws Kept
CHECK_DEADLOCK FALSE

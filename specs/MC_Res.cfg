SPECIFICATION MCSpec
CONSTANTS
  Xs = {0, 101, 200, 300}
  Es = {0, 1}
  Types = {0, 1, 2, 3}
  Depth = 6
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Once
PROPERTY Laws
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS
  Types = {0, 1}
  N = 4
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Inverse Product Sum Increasing Known Sharp
CHECK_DEADLOCK FALSE

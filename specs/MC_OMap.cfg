SPECIFICATION MCSpec
CONSTANTS
  Kinds = {0, 1}
  NKeys = 3
  Depth = 8
  Sizes = {11, 12, 13, 17, 18, 23, 24, 29, 30, 36, 41, 72, 73, 77, 78, 83}
  Tail2 = 1
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Stored EnumOK
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS
  Kinds = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
  Depth = 6
  MaxRows = 2
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Independent CloneEqual
CHECK_DEADLOCK FALSE

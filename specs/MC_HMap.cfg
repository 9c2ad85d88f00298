SPECIFICATION MCSpec
CONSTANTS
  NKeys = 3
  NVals = 2
  Depth = 6
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY Laws
CHECK_DEADLOCK FALSE

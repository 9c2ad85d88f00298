SPECIFICATION MCSpec
CONSTANTS
  Elems = {101, 102}
  MaxLen = 3
  MaxO = 1
  Depth = 6
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS DedupOK RevOK
PROPERTY Laws
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Elems = {101, 102}
  Fresh = TRUE
  MaxCap = 8
  MaxLen = 7
  MaxO = 1
  Depth = 40
  Caps = {0, 1, 2, 3}
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
PROPERTY Refines
CHECK_DEADLOCK FALSE

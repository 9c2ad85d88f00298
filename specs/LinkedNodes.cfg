SPECIFICATION Spec
CONSTANTS
  Elems = {101, 102}
  MaxLen = 3
  MaxO = 2
  Depth = 9
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT BackwardOK
PROPERTY Refines
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Elems = {100, 101, 200, 300}
  MaxLen = 6
  MaxO = 1
  Depth = 20
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT HeapOrder
PROPERTY Refines
CHECK_DEADLOCK FALSE

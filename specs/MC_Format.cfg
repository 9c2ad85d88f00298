SPECIFICATION MCSpec
CONSTANTS
  MaxTok = 4
  MaxArgs = 3
  Elems = {3, 12, 7}
ACTION_CONSTRAINT Emit
INVARIANTS Literal Missing Surplus
CHECK_DEADLOCK FALSE

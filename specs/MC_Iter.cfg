SPECIFICATION MCSpec
CONSTANTS
  Kinds = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
  Big = FALSE
  Depth = 7
  MaxSlots = 1
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS RevRev FilterSplit NeverMore
PROPERTY Apart
CHECK_DEADLOCK FALSE

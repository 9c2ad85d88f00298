SPECIFICATION MCSpec
CONSTANTS
  Depth = 5
  Most = 2
  Elems = {10, 11, 20, 60}
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS RefusalDue Total
PROPERTIES RefusalStill CloneLen
CHECK_DEADLOCK FALSE

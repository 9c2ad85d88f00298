SPECIFICATION Spec
CONSTANTS
  T = 2
  NKeys = 7
  Vals = {5}
VIEW View
INVARIANTS Shape Enumerated
PROPERTY Refines
CHECK_DEADLOCK FALSE

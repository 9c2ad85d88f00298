SPECIFICATION FreeSpec
CONSTANTS
  A = 2
  Depth = 6
INVARIANTS Conserved
VIEW View
CHECK_DEADLOCK FALSE

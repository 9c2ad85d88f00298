SPECIFICATION MCSpec
CONSTANTS
  Types = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
  D = 0
  Mode = "arith"
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS InType ResIn Modes Division Small
CHECK_DEADLOCK FALSE

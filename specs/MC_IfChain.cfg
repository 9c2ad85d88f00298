SPECIFICATION MCSpec
CONSTANTS
  MaxConds = 4
  Types = {0, 1, 2, 3, 4}
  MaxNest = 2
  KeepTypes = {0, 2}
ACTION_CONSTRAINT Emit
INVARIANTS AtMost Exact NestOk
PROPERTIES Stable
CHECK_DEADLOCK FALSE

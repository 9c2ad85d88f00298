SPECIFICATION TraceSpec
CONSTANTS
  N = 6
  A = 6
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

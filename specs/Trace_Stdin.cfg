SPECIFICATION TraceSpec
CONSTANTS
  A = 4
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

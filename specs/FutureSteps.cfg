SPECIFICATION Spec
CONSTANTS
  N = 3
  A = 2
INVARIANTS Once
PROPERTIES Final Right RunsUnasked Answered
CHECK_DEADLOCK FALSE

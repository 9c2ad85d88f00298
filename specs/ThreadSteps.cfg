SPECIFICATION Spec
CONSTANTS
  N = 2
  A = 2
INVARIANTS Once Truth QueryAnswers
PROPERTIES Stays AfterEnd Runs JoinReturns
CHECK_DEADLOCK FALSE

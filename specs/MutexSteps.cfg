SPECIFICATION StrongSpec
CONSTANTS
  N = 3
  Vals = {1}
INVARIANTS AtMostOne TryAnswers
PROPERTIES Guarded HandOver Served
CHECK_DEADLOCK FALSE

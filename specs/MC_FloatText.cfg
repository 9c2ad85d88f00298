SPECIFICATION MCSpec
CONSTANTS
  Alphabet = {48, 49, 53, 46, 101, 45, 43}
  MaxChars = 4
  N = 9
ACTION_CONSTRAINT Emit
INVARIANTS Expected Told Mirror
CHECK_DEADLOCK FALSE

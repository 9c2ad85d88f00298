SPECIFICATION MCSpec
CONSTANTS
  Alphabet = {43, 45, 48, 49, 57, 32, 95, 97, 46}
  MaxChars = 3
ACTION_CONSTRAINT Emit
INVARIANTS Law Law2
CHECK_DEADLOCK FALSE

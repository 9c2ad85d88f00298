SPECIFICATION MCSpec
CONSTANTS
  Alphabet = {97, 66, 32, 1470, 128512}
  MaxLen = 4
  MaxPat = 2
  Units = {97, 55296, 56319, 56320, 57343, 57344, 65279, 65533, 65535}
  MaxUnits = 3
ACTION_CONSTRAINT Emit
INVARIANTS Restores Idem Codes Units16
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANT
  Types = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
ACTION_CONSTRAINT Emit
INVARIANT TotalOrder
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT
  LB <- LB2

SPECIFICATION Spec
CONSTANT
  Seed = 1

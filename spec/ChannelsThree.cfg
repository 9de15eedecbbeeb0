SPECIFICATION Spec
CONSTANTS
  Shape <- Three
  Families <- Pairs
  Bindings = 3
INVARIANTS Acceptable Right NoBlock
CHECK_DEADLOCK FALSE

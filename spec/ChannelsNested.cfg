SPECIFICATION Spec
CONSTANTS
  Shape <- Nested
  Families <- Pairs
  Bindings = 3
INVARIANTS Acceptable Right NoBlock
CHECK_DEADLOCK FALSE

SPECIFICATION Live1
CONSTANTS
  Shape <- Two
  Families <- Small
  Bindings = 3
INVARIANTS Acceptable Right NoBlock
PROPERTIES Ends
CHECK_DEADLOCK FALSE

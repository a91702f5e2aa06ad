SPECIFICATION Spec
CONSTANTS
  B = 1
  First <- FirstAll
  Depth = 2
  K = 10
INVARIANTS Sound Symmetric
CHECK_DEADLOCK FALSE

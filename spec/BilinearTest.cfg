SPECIFICATION Spec
CONSTANTS
  B = 1
  First <- FirstOne
  Depth = 2
  K = 10
INVARIANTS Sound Symmetric
CHECK_DEADLOCK FALSE

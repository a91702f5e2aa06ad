SPECIFICATION Spec
CONSTANTS
  Scheme = "each"
  N = 4
  MaxLog = 2
  Bounds = {0, 1}
  Far = 9
INVARIANT Contract
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Scheme = "fixed"
  N = 3
  MaxLog = 2
  Bounds = {0, 1, 2}
  Far = 9
INVARIANT Contract
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Scheme = "fixed"
  N = 4
  MaxLog = 2
  Bounds = {0, 1}
  Far = 9
INVARIANT Contract
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Scheme = "pwr"
  N = 4
  MaxLog = 2
  Bounds = {1, 2}
  Far = 9
INVARIANT Contract
CHECK_DEADLOCK FALSE

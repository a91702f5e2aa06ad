SPECIFICATION Spec
CONSTANTS
  Scheme = "nosign"
  N = 2
  MaxLog = 2
  Bounds = {0, 1}
  Far = 9
INVARIANT Contract
CHECK_DEADLOCK FALSE

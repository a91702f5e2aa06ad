SPECIFICATION Spec
CONSTANTS
  Scheme = "each-near"
  N = 2
  MaxLog = 3
  Bounds = {0, 1, 2}
  Far = 9
INVARIANT Contract
CHECK_DEADLOCK FALSE

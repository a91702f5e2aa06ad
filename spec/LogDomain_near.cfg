SPECIFICATION Spec
CONSTANTS
  Scheme = "pwr-near"
  N = 2
  MaxLog = 3
  Bounds = {1, 2}
  Far = 9
INVARIANT Contract
CHECK_DEADLOCK FALSE

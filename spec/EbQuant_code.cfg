SPECIFICATION Spec
CONSTANTS
  Base = 2
  Grain = 2
  MaxBound = 11
  Data = {0, 1, 4, 30}
  Radius = 3
  Len_ = 2
  Mode = "code"
  Variant = "code"
INVARIANTS GrantedWithin InStep Within UsedUp InAlphabet
CHECK_DEADLOCK FALSE

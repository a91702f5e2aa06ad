SPECIFICATION Spec
CONSTANTS
  B = 1
  Dim = 2
  Fixed <- NoVec
INVARIANT Triangle
CHECK_DEADLOCK FALSE

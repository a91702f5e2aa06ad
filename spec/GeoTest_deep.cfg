SPECIFICATION Spec
CONSTANTS
  B = 2
  Dim = 2
  Fixed <- NoVec
INVARIANT Triangle
CHECK_DEADLOCK FALSE

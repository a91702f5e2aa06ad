SPECIFICATION Spec
CONSTANTS
  B = 1
  Dim = 3
  Fixed <- FixOne
INVARIANT TetrahedronWeights
CHECK_DEADLOCK FALSE

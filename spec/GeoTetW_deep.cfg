SPECIFICATION Spec
CONSTANTS
  B = 1
  Dim = 3
  Fixed <- FixAll
INVARIANTS Tetrahedron TetrahedronWeights
CHECK_DEADLOCK FALSE

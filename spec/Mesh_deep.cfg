SPECIFICATION Spec
CONSTANTS
  Max2 = 9
  Max3 = 5
  Variant = "code"
INVARIANTS Triangles Tetrahedra Simplices Sides2 Sides3
CHECK_DEADLOCK FALSE

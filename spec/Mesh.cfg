SPECIFICATION Spec
CONSTANTS
  Max2 = 5
  Max3 = 3
  Variant = "code"
INVARIANTS Triangles Tetrahedra Simplices Sides2 Sides3
CHECK_DEADLOCK FALSE

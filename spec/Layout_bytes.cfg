SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Variant = "bytes"
INVARIANTS Understood EndsTogether
CHECK_DEADLOCK FALSE

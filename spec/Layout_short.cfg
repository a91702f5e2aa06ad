SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Variant = "short"
INVARIANTS Understood EndsTogether
CHECK_DEADLOCK FALSE

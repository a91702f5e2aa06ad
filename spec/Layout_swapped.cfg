SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Variant = "swapped"
INVARIANTS Understood EndsTogether
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Variant = "code"
INVARIANTS Understood EndsTogether
PROPERTY Terminates
 CHECK_DEADLOCK FALSE

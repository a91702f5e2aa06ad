SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Variant = "code"
INVARIANTS Understood EndsTogether
PROPERTY Terminates
 CHECK_DEADLOCK FALSE

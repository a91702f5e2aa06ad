SPECIFICATION Spec
CONSTANTS
  MaxR = 8
  MaxB = 6
  Variant = "code"
INVARIANTS Sound Covered
PROPERTY Terminates
CHECK_DEADLOCK FALSE

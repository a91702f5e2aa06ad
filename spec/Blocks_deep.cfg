SPECIFICATION Spec
CONSTANTS
  MaxR = 14
  MaxB = 9
  Variant = "code"
INVARIANTS Sound Covered
PROPERTY Terminates
CHECK_DEADLOCK FALSE

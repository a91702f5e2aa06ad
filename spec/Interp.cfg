SPECIFICATION Spec
CONSTANTS
  MaxR = 12
  Variant = "code"
INVARIANTS Sound LevelDone Covered
PROPERTY Terminates
CHECK_DEADLOCK FALSE

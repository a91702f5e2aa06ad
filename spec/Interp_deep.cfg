SPECIFICATION Spec
CONSTANTS
  MaxR = 40
  Variant = "code"
INVARIANTS Sound LevelDone Covered
PROPERTY Terminates
CHECK_DEADLOCK FALSE

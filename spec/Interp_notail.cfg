SPECIFICATION Spec
CONSTANTS
  MaxR = 12
  Variant = "notail"
INVARIANTS Sound LevelDone Covered

CHECK_DEADLOCK FALSE

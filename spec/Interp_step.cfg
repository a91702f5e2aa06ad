SPECIFICATION Spec
CONSTANTS
  MaxR = 12
  Variant = "step"
INVARIANTS Sound LevelDone Covered

CHECK_DEADLOCK FALSE

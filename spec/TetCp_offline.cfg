SPECIFICATION Spec
CONSTANTS
  Unit = 8
  Vals <- Vals7
  E = 2
  Mode = "offline"
  Variant = "code"
  Few = TRUE
INVARIANTS CpKept
CHECK_DEADLOCK FALSE

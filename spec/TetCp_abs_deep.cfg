SPECIFICATION Spec
CONSTANTS
  Unit = 4
  Vals <- Vals7
  E = 2
  Mode = "abs"
  Variant = "code"
  Few = FALSE
INVARIANTS CpKept
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Unit = 2
  Vals <- Vals1
  E = 1
  Mode = "abs"
  Variant = "half"
  Few = FALSE
INVARIANTS CpKept
CHECK_DEADLOCK FALSE

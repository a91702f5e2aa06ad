SPECIFICATION Spec
CONSTANTS
  Unit = 2
  Vals <- V2
  E = 1
  Mode = "offline"
  Orients = {1, 2}
  Variant = "half"
INVARIANTS CpKept KindKept
CHECK_DEADLOCK FALSE

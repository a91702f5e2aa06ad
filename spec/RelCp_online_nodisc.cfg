SPECIFICATION Spec
CONSTANTS
  Unit = 2
  Vals <- V2
  E = 1
  Mode = "online"
  Orients = {1, 2}
  Variant = "nodisc"
INVARIANTS CpKept KindKept
CHECK_DEADLOCK FALSE

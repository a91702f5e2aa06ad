SPECIFICATION Spec
CONSTANTS
  R1 = 2
  R2 = 2
  Vals <- VQ
  Unit = 2
  Eb = 1
  MaxTries = 1
  Variant = "blind"
INVARIANTS CpKept VerticesExact

CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  R1 = 2
  R2 = 2
  Vals <- V1
  Unit = 2
  Eb = 1
  MaxTries = 1
  Variant = "code"
INVARIANTS CpKept VerticesExact
PROPERTY Terminates
CHECK_DEADLOCK FALSE

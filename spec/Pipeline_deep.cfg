SPECIFICATION Spec
CONSTANTS
  R1 = 2
  R2 = 2
  Vals <- DV
  Ebs = {0, 1}
  Radius = 3
  MaxRequests = 3
  Variant = "code"
INVARIANTS Allowed Complete
PROPERTIES Refines Stable
CHECK_DEADLOCK FALSE

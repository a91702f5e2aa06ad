SPECIFICATION Spec
CONSTANTS
  R1 = 2
  R2 = 2
  Vals <- QV
  Ebs = {0, 1}
  Radius = 3
  MaxRequests = 3
  Variant = "capacity"
INVARIANTS Allowed Complete
PROPERTIES Refines Stable
CHECK_DEADLOCK FALSE

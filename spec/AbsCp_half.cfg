SPECIFICATION Spec
CONSTANTS
  Unit = 2
  Vals <- QVals
  Eb = 2
  Orders <- QOrders
  Variant = "half"
INVARIANTS CpKept VerticesExact
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Unit = 2
  Vals <- QVals
  Eb = 2
  Orders <- QOrders
  Variant = "code"
INVARIANTS CpKept VerticesExact
CHECK_DEADLOCK FALSE

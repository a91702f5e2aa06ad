SPECIFICATION Spec
CONSTANTS
  Unit = 2
  Vals <- QVals
  Eb = 2
  Orders <- QOrders
  Variant = "nonstrict"
INVARIANTS CpKept VerticesExact
CHECK_DEADLOCK FALSE

SPECIFICATION TraceSpec
CONSTANTS
  Clauses = {"bound", "cp2"}
  JudgeCrash = TRUE
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

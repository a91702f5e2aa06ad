SPECIFICATION Spec
CONSTANTS
  MaxR = 4
  LeastDistance = 1
  Distances = {5}
INVARIANTS Inside Onward
PROPERTY Ends
CHECK_DEADLOCK FALSE

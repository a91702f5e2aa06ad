SPECIFICATION Spec
CONSTANTS
  MaxR = 5
  LeastDistance = 3
  Distances = {3,4,5,10}
INVARIANTS Inside Onward
PROPERTY Ends
CHECK_DEADLOCK FALSE

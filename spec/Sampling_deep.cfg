SPECIFICATION Spec
CONSTANTS
  MaxR = 9
  LeastDistance = 3
  Distances = {3,4,5,7,10,100}
INVARIANTS Inside Onward
PROPERTY Ends
CHECK_DEADLOCK FALSE

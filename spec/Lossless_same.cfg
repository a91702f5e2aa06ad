SPECIFICATION Spec
CONSTANTS
  Top = 100000000
  Small = 200
  Tenths = 10
INVARIANT Fits
CHECK_DEADLOCK FALSE

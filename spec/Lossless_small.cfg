SPECIFICATION Spec
CONSTANTS
  Top = 100000000
  Small = 100
  Tenths = 12
INVARIANT Fits
CHECK_DEADLOCK FALSE

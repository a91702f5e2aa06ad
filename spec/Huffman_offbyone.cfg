SPECIFICATION Spec
CONSTANTS
  NSym = 4
  MaxLen = 6
  Widths <- W
  Variant = "offbyone"
INVARIANTS RoundTrip PrefixFree Complete 
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  NSym = 4
  MaxLen = 6
  Widths <- W
  Variant = "greedy"
INVARIANTS RoundTrip PrefixFree Complete Shortest
CHECK_DEADLOCK FALSE

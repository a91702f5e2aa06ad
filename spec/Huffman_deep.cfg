SPECIFICATION Spec
CONSTANTS
  NSym = 5
  MaxLen = 6
  Widths <- W
  Variant = "code"
INVARIANTS RoundTrip PrefixFree Complete Shortest Cost
CHECK_DEADLOCK FALSE

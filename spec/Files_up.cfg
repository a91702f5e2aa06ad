SPECIFICATION Spec
CONSTANTS
  Width = 4
  MaxLen = 3
  Values = {"a", "b", "c"}
  RoundUp = TRUE
  Append_ = FALSE
INVARIANT RoundTrip

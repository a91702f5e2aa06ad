SPECIFICATION Spec
CONSTANTS
  Width = 4
  MaxLen = 3
  Values = {"a", "b", "c"}
  RoundUp = FALSE
  Append_ = TRUE
INVARIANT RoundTrip

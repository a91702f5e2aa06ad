SPECIFICATION Spec
CONSTANTS
  Width = 4
  MaxLen = 6
  Values = {"a", "b", "c"}
  RoundUp = FALSE
  Append_ = FALSE
INVARIANT RoundTrip

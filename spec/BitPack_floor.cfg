SPECIFICATION Spec
CONSTANTS
  MaxLen = 9
  PerByte = 8
  Variant = "floor"
INVARIANTS RoundTrip Size Bytes
CHECK_DEADLOCK FALSE

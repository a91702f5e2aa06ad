SPECIFICATION Spec
CONSTANTS
  MaxLen = 17
  PerByte = 8
  Variant = "code"
INVARIANTS RoundTrip Size Bytes
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  B = {0, 200}
  L = 2
INVARIANTS RoundTrip Bytes
CHECK_DEADLOCK FALSE

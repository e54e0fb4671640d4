INIT Init
NEXT Next
INVARIANTS RoundTrip LineNumbers Refused
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 2
  WideLen = 1
  Emit = FALSE
  Small = FALSE

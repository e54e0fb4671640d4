INIT Init
NEXT Next
INVARIANTS RoundTrip LineNumbers Refused
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 1
  WideLen = 1
  Emit = TRUE
  Small = FALSE

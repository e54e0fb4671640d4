INIT Init
NEXT Next
INVARIANT Small
CHECK_DEADLOCK FALSE
CONSTANTS
  Emit = TRUE

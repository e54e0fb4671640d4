INIT Init
NEXT Next
INVARIANT Correct
INVARIANT Sound
INVARIANT Term
CHECK_DEADLOCK FALSE
CONSTANTS
  Emit = TRUE

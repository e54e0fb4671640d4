INIT Init
NEXT Next
INVARIANTS NothingLost Once Confluent
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  Emit = FALSE

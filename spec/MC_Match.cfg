INIT Init
NEXT Next
INVARIANTS Props
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxHeader = 3
  Emit = TRUE

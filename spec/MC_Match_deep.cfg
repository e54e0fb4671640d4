INIT Init
NEXT Next
INVARIANTS Props
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxHeader = 4
  Emit = FALSE

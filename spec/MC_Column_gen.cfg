INIT Init
NEXT Next
INVARIANTS Nearest NullWins
CHECK_DEADLOCK FALSE
CONSTANTS
  Emit = TRUE
  MaxLen = 0

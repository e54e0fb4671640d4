INIT Init
NEXT Next
INVARIANTS Nearest NullWins Lists WriteBack
CHECK_DEADLOCK FALSE
CONSTANTS
  Emit = FALSE
  MaxLen = 4

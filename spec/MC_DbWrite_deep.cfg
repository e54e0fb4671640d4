INIT Init
NEXT Next
INVARIANTS Atomic Exact Recovered
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 2
  Emit = FALSE

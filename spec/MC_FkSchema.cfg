INIT Init
NEXT Next
INVARIANTS Stricter Sound Reflexive Symmetric Conjunction
CHECK_DEADLOCK FALSE
CONSTANTS
  Emit = TRUE

SPECIFICATION Spec
INVARIANTS Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 2
  Emit = TRUE

SPECIFICATION Spec
INVARIANTS Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 3
  Emit = FALSE

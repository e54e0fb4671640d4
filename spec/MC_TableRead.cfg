SPECIFICATION Spec
INVARIANTS BigStep Modes
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 2
  Emit = TRUE

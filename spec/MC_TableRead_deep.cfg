SPECIFICATION Spec
INVARIANTS BigStep Modes
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 3
  Emit = FALSE

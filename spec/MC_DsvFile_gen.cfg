SPECIFICATION Spec
INVARIANTS AllOrNothing FailureKeepsFile BigStep Identity
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 2
  Emit = TRUE

SPECIFICATION Spec
INVARIANTS AllOrNothing FailureKeepsFile BigStep Identity
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 3
  Emit = FALSE

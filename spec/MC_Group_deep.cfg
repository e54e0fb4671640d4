SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Emit = FALSE
INVARIANT ReadsLast
PROPERTY Frame
CHECK_DEADLOCK FALSE

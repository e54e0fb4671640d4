SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Emit = TRUE
INVARIANT ReadsLast
PROPERTY Frame
CHECK_DEADLOCK FALSE

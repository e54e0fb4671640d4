SPECIFICATION Spec
CONSTANTS
  Emit = FALSE
  All = TRUE
INVARIANT AbsoluteLinks
INVARIANT Rebased
INVARIANT MadeAbsolute
INVARIANT NoQueries
INVARIANT Below
CHECK_DEADLOCK FALSE

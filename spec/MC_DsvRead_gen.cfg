SPECIFICATION Spec
INVARIANTS Selection Trimmed Partition NumbersIncrease CountCells
PROPERTIES StableProp
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 4
  Emit = TRUE
  Small = FALSE

SPECIFICATION Spec
INVARIANTS Selection Trimmed Partition NumbersIncrease CountCells
PROPERTIES StableProp
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 5
  Emit = FALSE
  Small = TRUE

SPECIFICATION Spec
INVARIANTS Selection Trimmed Partition NumbersIncrease CountCells
PROPERTIES StableProp
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 6
  Emit = FALSE
  Small = FALSE

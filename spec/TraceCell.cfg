INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS
  InitOf <- CellInit
  StepOf <- CellStep

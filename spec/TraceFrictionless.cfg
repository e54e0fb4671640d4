INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS
  InitOf <- FlInit
  StepOf <- FlStep

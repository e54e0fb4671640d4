INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS
  InitOf <- CmdInit
  StepOf <- CmdStep

INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS
  InitOf <- MarkdownInit
  StepOf <- MarkdownStep

INIT JInit
NEXT JNext
CONSTANTS
  InitOf <- PaInit
  Bad <- PaPlace
  Step <- PaStep
  Hit <- PaHit
CHECK_DEADLOCK FALSE

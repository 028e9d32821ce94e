INIT JInit
NEXT JNext
CONSTANTS
  InitOf <- WoInit
  Bad <- WoBad
  Step <- WoStep
  Hit <- WoHit
CHECK_DEADLOCK FALSE

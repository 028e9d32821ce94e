INIT JInit
NEXT JNext
CONSTANTS
  InitOf <- OlInit
  Bad <- OlBad
  Step <- OlStep
  Hit <- OlHit
CHECK_DEADLOCK FALSE

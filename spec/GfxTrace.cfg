INIT JInit
NEXT JNext
CONSTANTS
  InitOf <- GxInit
  Bad <- GxBad
  Step <- GxStep
  Hit <- GxHit
CHECK_DEADLOCK FALSE

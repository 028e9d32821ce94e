INIT JInit
NEXT JNext
CONSTANTS
  InitOf <- FlInit
  Bad <- GrBad
  Step <- FlStep
  Hit <- FlHit
CHECK_DEADLOCK FALSE

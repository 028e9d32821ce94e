INIT JInit
NEXT JNext
CONSTANTS
  InitOf <- FlInit
  Bad <- FlBad
  Step <- FlStep
  Hit <- FlHit
CHECK_DEADLOCK FALSE

INIT JInit
NEXT JNext
CONSTANTS
  InitOf <- DcInit
  Bad <- NmBad
  Step <- DcStep
  Hit <- DcHit
CHECK_DEADLOCK FALSE

INIT JInit
NEXT JNext
CONSTANTS
  InitOf <- DcInit
  Bad <- DcBad
  Step <- DcStep
  Hit <- DcHit
CHECK_DEADLOCK FALSE

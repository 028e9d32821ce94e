INIT JInit
NEXT JNext
CONSTANTS
  InitOf <- TbInit
  Bad <- TbBad
  Step <- TbStep
  Hit <- TbHit
CHECK_DEADLOCK FALSE

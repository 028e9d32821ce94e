INIT JInit
NEXT JNext
CONSTANTS
  InitOf <- TbInit
  Bad <- BdBad
  Step <- TbStep
  Hit <- TbHit
CHECK_DEADLOCK FALSE

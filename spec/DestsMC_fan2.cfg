SPECIFICATION Spec
CONSTANTS
  Fan = 2
  NKeys = 8
  MaxLabels = 4
  Sizes = {5, 9, 17, 33}
INVARIANTS Accepted 
CHECK_DEADLOCK FALSE

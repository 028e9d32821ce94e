SPECIFICATION Spec
CONSTANTS
  Fan = 7
  NKeys = 8
  MaxLabels = 3
  Sizes = {6, 8, 9, 15, 48, 50, 51}
INVARIANTS Accepted Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Fan = 7
  NKeys = 8
  MaxLabels = 4
  Sizes = {6, 8, 9, 15, 48, 50, 51, 99, 120}
INVARIANTS Accepted Emit
CHECK_DEADLOCK FALSE

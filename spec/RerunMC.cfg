SPECIFICATION Spec
CONSTANTS
  Areas = {1, 2, 3}
  Slots = {1, 2}
  MaxOps = 8
  Total = 8
  Leaky = FALSE
INVARIANTS Accepted Emit
CHECK_DEADLOCK FALSE

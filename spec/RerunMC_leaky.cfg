SPECIFICATION Spec
CONSTANTS
  Areas = {1, 2, 3}
  Slots = {1, 2}
  MaxOps = 6
  Total = 6
  Leaky = TRUE
INVARIANTS Sharp
CHECK_DEADLOCK FALSE

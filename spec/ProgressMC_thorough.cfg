SPECIFICATION Spec
CONSTANTS
  Heights = {1, 2, 3, 4, 6}
  Room = 4
  Cols = 2
  MaxAtoms = 6
  Limit = 3
  Cap = 30
  Faults = {"none"}
INVARIANTS Accepted Sharp Emit
CHECK_DEADLOCK FALSE

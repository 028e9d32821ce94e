SPECIFICATION Spec
CONSTANTS
  Heights = {1, 2, 4, 6}
  Room = 4
  Cols = 1
  MaxAtoms = 4
  Limit = 3
  Cap = 30
  Faults = {"none", "drop", "endless", "early", "blank", "force", "twice"}
INVARIANTS Accepted Sharp Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Heights = {1, 2, 4, 6}
  Room = 4
  Cols = 1
  MaxAtoms = 4
  Limit = 3
  Cap = 30
  Faults = {"none", "drop", "early", "force", "twice"}
PROPERTY Ends
CHECK_DEADLOCK FALSE

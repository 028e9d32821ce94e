SPECIFICATION Spec
CONSTANTS
  Menu = {"-", "bold", "thin", "both", "rise", "line", "back", "none"}
  Depth = 3
  Faults = {"none"}
INVARIANTS Accepted Sharp Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE

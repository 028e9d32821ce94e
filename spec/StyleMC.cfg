SPECIFICATION Spec
CONSTANTS
  Menu = {"-", "bold", "thin", "both", "rise", "line", "back", "none"}
  Depth = 3
  Faults = {"none", "outer", "order", "leak", "drop", "sticky", "rise"}
INVARIANTS Accepted Sharp Emit

CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Sets = {"-", "turn", "reset"}
  Ns = {10}
  RunLists = {"1"}
  Rules = {"0:2 turn"}
  MaxSections = 2
  MaxRules = 1
  Fault = "none"
INVARIANTS Accepted Sharp Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE

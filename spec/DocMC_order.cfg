SPECIFICATION Spec
CONSTANTS
  Sets = {"-", "turn", "off", "reset roman"}
  Ns = {5}
  RunLists = {"1"}
  Rules = {"1 margin", "0:2 turn", ": -1+1", "1: +2"}
  MaxSections = 2
  MaxRules = 2
  Fault = "order"
INVARIANTS Accepted Sharp Emit

CHECK_DEADLOCK FALSE

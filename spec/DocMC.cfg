SPECIFICATION Spec
CONSTANTS
  Sets = {"-", "turn", "margin", "off", "reset roman"}
  Ns = {5}
  RunLists = {"12"}
  Rules = {"1 margin", "0:2 turn", "1::2 size", ":1,2 -1", "1: +2", ": -1+1"}
  MaxSections = 2
  MaxRules = 2
  Fault = "none"
INVARIANTS Accepted Sharp Emit

CHECK_DEADLOCK FALSE

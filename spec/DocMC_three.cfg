SPECIFICATION Spec
CONSTANTS
  Sets = {"-", "size", "off", "roman", "reset"}
  Ns = {2, 10}
  RunLists = {"21"}
  Rules = {"0:2 turn", ":1,2 -1"}
  MaxSections = 3
  MaxRules = 1
  Fault = "none"
INVARIANTS Accepted Sharp Emit

CHECK_DEADLOCK FALSE

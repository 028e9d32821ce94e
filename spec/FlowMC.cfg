SPECIFICATION Spec
CONSTANTS
  Kinds = {"p1", "p3", "f30", "n44", "g2"}
  Cols = {1, 2}
  MaxEls = 3
  PageHeight = 60000
  Fault = "none"
INVARIANTS Accepted Emit
CHECK_DEADLOCK FALSE
PROPERTIES Ends

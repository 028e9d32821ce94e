SPECIFICATION Spec
CONSTANTS
  Kinds = {"p1", "p3", "f30", "n44", "g2"}
  Cols = {1, 2, 3}
  MaxEls = 4
  PageHeight = 60000
  Fault = "none"
INVARIANTS Accepted Emit
CHECK_DEADLOCK FALSE
PROPERTIES Ends

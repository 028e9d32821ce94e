SPECIFICATION Spec
CONSTANTS
  Shapes = {"rows", "after"}
  Sizes = {1, 4}
  Starts = {60000, 27000}
  PageHeight = 60000
  Fault = "none"
PROPERTY Ends
CHECK_DEADLOCK FALSE

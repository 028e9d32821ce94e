SPECIFICATION LiveSpec
CONSTANTS
  Fams = {"Ay"}
  Modes = {"n", "b"}
  MaxOps = 3
  Faults = {"none"}
PROPERTY Comes
CHECK_DEADLOCK FALSE

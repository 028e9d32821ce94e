SPECIFICATION Spec
CONSTANTS
  Fams = {"Ay"}
  Modes = {"n", "b"}
  MaxOps = 4
  Faults = {"none", "shared", "mode", "default", "last", "stale", "family", "layout", "glyph", "back", "width"}
INVARIANTS Accepted Sharp Emit
CHECK_DEADLOCK FALSE

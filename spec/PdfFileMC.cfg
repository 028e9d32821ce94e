SPECIFICATION Spec
CONSTANTS
  MaxObjs = 4
  MaxOps = 4
  Kinds = {"num", "str", "ref", "stream", "flate"}
INVARIANTS Accepted ReadsBack Emit
CHECK_DEADLOCK FALSE

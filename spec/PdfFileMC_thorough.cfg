SPECIFICATION Spec
CONSTANTS
  MaxObjs = 5
  MaxOps = 5
  Kinds = {"num", "str", "ref", "stream", "flate"}
INVARIANTS Accepted ReadsBack Emit
CHECK_DEADLOCK FALSE

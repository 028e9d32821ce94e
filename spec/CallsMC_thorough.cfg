SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Kinds = {"text", "right", "long", "longer", "content", "beside", "there", "color", "size", "page", "wide", "setup", "head", "first"}
  Faults = {"none"}
INVARIANTS Accepted Sharp Emit
CHECK_DEADLOCK FALSE

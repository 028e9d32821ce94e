SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  Kinds = {"text", "long", "longer", "beside", "there", "page", "head", "first"}
  Faults = {"none"}
PROPERTY Ends
CHECK_DEADLOCK FALSE

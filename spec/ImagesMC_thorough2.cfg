SPECIFICATION Spec
CONSTANTS
  Segs = {"huff", "cmyk"}
  MaxSegs = 0
  MaxOps = 3
  Sizes <- SomeSizes
  Moves = {"bottom", "next"}
  Faults = {"none", "again", "mix", "stay"}
INVARIANTS Accepted Sharp Emit
CHECK_DEADLOCK FALSE

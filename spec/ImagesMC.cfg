SPECIFICATION Spec
CONSTANTS
  Segs = {"thumb", "huff", "cmyk"}
  MaxSegs = 1
  MaxOps = 2
  Sizes <- SomeSizes
  Moves = {"bottom", "next"}
  Faults = {"none", "near", "last", "sides", "gray", "each", "mix", "squash", "stay", "lose"}
INVARIANTS Accepted Sharp Emit
CHECK_DEADLOCK FALSE

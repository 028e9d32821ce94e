SPECIFICATION Spec
CONSTANTS
  Segs = {"thumb", "huff", "cmyk"}
  MaxSegs = 1
  MaxOps = 1
  Sizes <- SomeSizes
  Moves = {"bottom", "next"}
  Faults = {"none", "near", "last", "sides", "gray", "again", "each", "mix", "squash", "stay", "lose"}
PROPERTY Ends
CHECK_DEADLOCK FALSE

CONSTANTS
  Nls <- QNls
  Bounds <- QBounds
  MaxOps = 2
  Pairing = TRUE
SPECIFICATION RSpec
INVARIANTS Consumed AllRanges Widths Radii Symmetric Dim SameRes Apart Chosen Emit
CHECK_DEADLOCK FALSE

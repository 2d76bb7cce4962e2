CONSTANTS
  Nls <- QNls
  Bounds <- DBounds
  MaxOps = 3
  Pairing = TRUE
SPECIFICATION RSpec
INVARIANTS Consumed AllRanges Widths Radii Symmetric Dim SameRes Apart Chosen Emit
CHECK_DEADLOCK FALSE

CONSTANTS
  Shapes = {1, 2}
  Tables <- TheTables
  Files <- TwoFiles
  MaxOps = 8
  Order <- Good
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE

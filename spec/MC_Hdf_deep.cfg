CONSTANTS
  Shapes = {2, 3, 6}
  Tables <- TheTables
  Files <- TwoFiles
  MaxOps = 5
  Order <- Good
SPECIFICATION Spec
INVARIANTS Lossless SumsHold Rebuilds Stable
PROPERTY Isolated
CHECK_DEADLOCK FALSE
VIEW Stage

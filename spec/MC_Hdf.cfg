CONSTANTS
  Shapes = {3, 5, 6}
  Tables <- TheTables
  Files <- OneFile
  MaxOps = 4
  Order <- Good
SPECIFICATION Spec
INVARIANTS Lossless SumsHold Rebuilds Stable
PROPERTY Isolated
CHECK_DEADLOCK FALSE
VIEW Stage

CONSTANTS
  Shapes = {1, 2, 3, 4, 5, 6}
  Tables <- TheTables
  Files <- OneFile
  MaxOps = 3
  Order <- Good
SPECIFICATION Spec
INVARIANTS Lossless SumsHold Rebuilds Stable
PROPERTY Isolated
CHECK_DEADLOCK FALSE
VIEW Stage

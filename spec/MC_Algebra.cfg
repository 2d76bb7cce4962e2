SPECIFICATION ASpec
CONSTANTS
  Size = 3
  Diag = {0, 1, 4}
  Off <- QOff
  Std = {1, 3}
INVARIANTS DefiniteIsPositive SemiIsNonNegative DefiniteIsSemi ScalingKeeps Emit
CHECK_DEADLOCK FALSE

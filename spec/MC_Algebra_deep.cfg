SPECIFICATION ASpec
CONSTANTS
  Size = 3
  Diag <- DDiag
  Off <- DOff
  Std = {1, 3}
INVARIANTS DefiniteIsPositive SemiIsNonNegative DefiniteIsSemi ScalingKeeps Emit
CHECK_DEADLOCK FALSE

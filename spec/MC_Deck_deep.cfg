SPECIFICATION DSpec
CONSTANTS
  MaxTemps = 4
  Weights = {1, 3, 9}
INVARIANTS NothingWrong Delivered Unambiguous Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE

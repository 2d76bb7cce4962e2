SPECIFICATION DSpec
CONSTANTS
  MaxTemps = 2
  Weights = {1, 9}
INVARIANTS NothingWrong Delivered Unambiguous Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE

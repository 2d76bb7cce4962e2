SPECIFICATION SSpec
CONSTANTS
  Keys = {"a", "b", "c"}
  Good = {1, 2, 3}
  Bad = {9, 10}
  MaxOps = 12
INVARIANTS ExactlyTheLastAccepted OnlyGood Emit
CHECK_DEADLOCK FALSE

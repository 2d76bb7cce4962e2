SPECIFICATION TSpec
CONSTANTS
  Token = {1, 2, 3}
  MaxLen = 7
  MaxArr = 3
  MaxOps = 3
INVARIANTS LengthKept NothingMeansIdentity Emit
CHECK_DEADLOCK FALSE

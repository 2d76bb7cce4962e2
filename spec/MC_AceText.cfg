SPECIFICATION TSpec
CONSTANTS
  Token = {1, 2}
  MaxLen = 5
  MaxArr = 2
  MaxOps = 1
INVARIANTS LengthKept NothingMeansIdentity WrittenIsAState Emit
PROPERTIES OnlyRuns
CHECK_DEADLOCK FALSE

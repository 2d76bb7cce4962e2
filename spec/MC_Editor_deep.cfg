SPECIFICATION ESpec
CONSTANTS
  Files <- MCFiles
  Deltas <- MCDeltas
  MaxOps = 4
INVARIANTS Isolation AdjustedClosed RulesHold Idempotent TotalFollows
PROPERTIES OrigStable
CHECK_DEADLOCK FALSE
VIEW View

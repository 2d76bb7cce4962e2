SPECIFICATION ESpec
CONSTANTS
  Files <- MCFiles
  Deltas <- MCDeltas
  MaxOps = 6
INVARIANTS Emit
CHECK_DEADLOCK FALSE

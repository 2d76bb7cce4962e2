CONSTANTS
  Deep = TRUE
  Bases <- QBases
  Patterns <- QPatterns
  Zeros <- QZeros
  Requests <- QRequests
SPECIFICATION MCSpec
INVARIANTS AsStated AdjustedIsClosure Faithful FaithfulCapture Emit
CHECK_DEADLOCK FALSE

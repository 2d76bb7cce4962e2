CONSTANTS
  NT = 1
  RX = {102}
  MaxRuns = 2
  AnyOrder = FALSE
  Clears = TRUE
  Requests <- Few
SPECIFICATION Spec
INVARIANTS Emit
VIEW Stage
CHECK_DEADLOCK FALSE

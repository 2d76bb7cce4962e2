CONSTANTS
  NT = 2
  RX = {18, 102}
  MaxRuns = 1
  AnyOrder = FALSE
  Clears = TRUE
  Requests <- All
SPECIFICATION Spec
INVARIANTS Emit
VIEW Stage
CHECK_DEADLOCK FALSE

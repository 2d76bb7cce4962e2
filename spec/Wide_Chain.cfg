CONSTANTS
  NT = 2
  RX = {2, 102}
  MaxRuns = 1
  AnyOrder = FALSE
  Clears = TRUE
  Requests <- All
SPECIFICATION Spec
INVARIANTS OwnStep TapesOwn Loud Delivered Tidy
PROPERTY Fresh
CHECK_DEADLOCK FALSE

CONSTANTS
  NT = 1
  RX = {102}
  MaxRuns = 2
  AnyOrder = TRUE
  Clears = TRUE
  Requests <- Few
SPECIFICATION Spec
INVARIANTS OwnStep TapesOwn Loud Delivered Tidy
PROPERTY Fresh
CHECK_DEADLOCK FALSE

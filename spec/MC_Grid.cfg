SPECIFICATION GSpec
CONSTANTS
  N = 4
  Values <- Vals
  Tolerances <- Tols
INVARIANTS LinearOk ThinOk Emit
CHECK_DEADLOCK FALSE

SPECIFICATION GSpec
CONSTANTS
  N = 4
  Values <- DeepVals
  Tolerances <- Tols
INVARIANTS LinearOk ThinOk Emit
CHECK_DEADLOCK FALSE

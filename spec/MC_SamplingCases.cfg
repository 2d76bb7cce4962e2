SPECIFICATION SSpec
CONSTANTS
  N = 1
  K = 3
  Distros = {"normal", "lognormal", "uniform"}
  MaxNeg = 0
INVARIANTS Stratified InRankOrder FixedHold Complete Emit
CHECK_DEADLOCK FALSE

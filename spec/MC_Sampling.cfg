SPECIFICATION SSpec
CONSTANTS
  N = 3
  K = 2
  Distros = {"normal", "lognormal"}
  MaxNeg = 2
INVARIANTS Stratified InRankOrder FixedHold Complete KeptBounds OneVariable OnlyNegativeDropped
CHECK_DEADLOCK FALSE

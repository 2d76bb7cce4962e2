SPECIFICATION SSpec
CONSTANTS
  N = 4
  K = 2
  Distros = {"normal"}
  MaxNeg = 1
INVARIANTS Stratified InRankOrder FixedHold Complete KeptBounds OneVariable OnlyNegativeDropped
CHECK_DEADLOCK FALSE

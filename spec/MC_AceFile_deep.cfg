SPECIFICATION ASpec
CONSTANTS
  Ns = {1, 2, 3}
  Mts = {102, 103, 600, 601, 51, 204}
  Gaps = {0, 1}
  MaxRx = 3
INVARIANTS FoundAsLaid EszAsLaid SumsRight Emit
CHECK_DEADLOCK FALSE

SPECIFICATION BSpec
CONSTANTS
  Sizes = {1, 2, 3}
  Vals = {0, 1}
INVARIANTS RoundTrip Unfinished ReverseTwice Emit
CHECK_DEADLOCK FALSE

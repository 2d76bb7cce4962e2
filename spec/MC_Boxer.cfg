SPECIFICATION BSpec
CONSTANTS
  Sizes = {1, 2}
  Vals = {0, 1, 2}
INVARIANTS RoundTrip Unfinished ReverseTwice Emit
CHECK_DEADLOCK FALSE

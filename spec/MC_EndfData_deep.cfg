CONSTANTS
  MaxLaws = 3
  MaxLfs = 3
  GroupCounts = {0, 1, 2, 6, 7, 8}
SPECIFICATION ESpec
INVARIANTS Consumed OnceListed Balance Shares PartialLike Emit
CHECK_DEADLOCK FALSE

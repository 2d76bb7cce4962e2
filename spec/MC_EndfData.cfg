CONSTANTS
  MaxLaws = 2
  MaxLfs = 2
  GroupCounts = {0, 1, 6, 8}
SPECIFICATION ESpec
INVARIANTS Consumed OnceListed Balance Shares PartialLike Emit
CHECK_DEADLOCK FALSE

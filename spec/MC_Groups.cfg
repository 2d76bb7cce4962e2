SPECIFICATION GSpec
CONSTANTS
  Ticks = {1, 2, 3, 4, 5, 6, 7}
  MaxGroups = 4
  MaxEnergies = 2
INVARIANTS ExactlyOneGroup NoGroupOutside EveryGroupReached Parallel OrderFree Monotone Emit
CHECK_DEADLOCK FALSE

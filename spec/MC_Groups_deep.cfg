SPECIFICATION GSpec
CONSTANTS
  Ticks = {1, 2, 3, 4, 5, 6, 7, 8}
  MaxGroups = 6
  MaxEnergies = 3
INVARIANTS ExactlyOneGroup NoGroupOutside EveryGroupReached Parallel OrderFree Monotone Emit
CHECK_DEADLOCK FALSE

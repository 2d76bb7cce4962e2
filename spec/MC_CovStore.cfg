SPECIFICATION SSpec
CONSTANTS
  Keys = {"a", "b"}
  Good = {1, 2}
  Bad = {9}
  MaxOps = 4
INVARIANTS ExactlyTheLastAccepted OnlyGood
PROPERTIES RefusedChangesNothing OneSlotAtATime Survives
VIEW NoOps
CHECK_DEADLOCK FALSE

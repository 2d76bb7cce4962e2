SPECIFICATION LSpec
CONSTANTS
  MaxOps = 14
  Hows = {"abs", "rel", "dot", "up"}
INVARIANTS RoundTrip EntriesAreFiles Emit
CHECK_DEADLOCK FALSE

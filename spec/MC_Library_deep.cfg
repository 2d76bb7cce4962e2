SPECIFICATION LSpec
CONSTANTS
  MaxOps = 5
  Hows = {"abs", "rel", "dot"}
VIEW View
INVARIANTS RoundTrip EntriesAreFiles
CHECK_DEADLOCK FALSE

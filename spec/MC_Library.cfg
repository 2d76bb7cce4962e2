SPECIFICATION LSpec
CONSTANTS
  MaxOps = 4
  Hows = {"abs", "rel", "dot"}
VIEW View
INVARIANTS RoundTrip EntriesAreFiles
CHECK_DEADLOCK FALSE

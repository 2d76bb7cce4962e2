SPECIFICATION PlotSpec
CONSTANTS
  MaxOps = 10
  Hows = {"abs", "rel", "dot", "up"}
INVARIANTS RoundTrip EntriesAreFiles Emit
CHECK_DEADLOCK FALSE

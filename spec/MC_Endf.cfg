SPECIFICATION Spec
CONSTANTS
  Kinds = {"num", "rec", "tape"}
  MaxVals = 13
  MaxMats = 2
  MaxSecs = 2
  MaxLines = 2
INVARIANTS SpellingsAgree RecordsReadBack TapeRead NoEarly Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE

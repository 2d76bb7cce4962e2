SPECIFICATION Spec
CONSTANTS
  Kinds = {"num", "rec", "tape"}
  MaxVals = 20
  MaxMats = 2
  MaxSecs = 3
  MaxLines = 2
INVARIANTS SpellingsAgree RecordsReadBack TapeRead NoEarly Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE

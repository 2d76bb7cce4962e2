CONSTANTS
  Coefs <- QCoefs
  Nus <- QNus
  TableSets <- DTables
SPECIFICATION FSpec
INVARIANTS Lost StartsThere Sane Parts Emit
CHECK_DEADLOCK FALSE

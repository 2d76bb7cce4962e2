CONSTANTS
  Coefs <- QCoefs
  Nus <- QNus
  TableSets <- QTables
SPECIFICATION FSpec
INVARIANTS Lost StartsThere Sane Parts Emit
CHECK_DEADLOCK FALSE

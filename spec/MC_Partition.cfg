CONSTANTS
  NP = 3
  NS = 3
  NT = 1
  Procs <- MCProcs
  Jobs <- MCJobs
  Tables <- MCTables
  Owners <- AllOwners
  MaxDeaths = 1
  Record = FALSE
SPECIFICATION Spec
INVARIANTS OneWriter OnlyOwners Complete Loss AtMostOnePartial Idle 
PROPERTY Finishes
CHECK_DEADLOCK FALSE

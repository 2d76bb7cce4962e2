CONSTANTS
  NP = 3
  NS = 4
  NT = 2
  Procs <- MCProcs
  Jobs <- MCJobs
  Tables <- MCTables
  Owners <- AllOwners
  MaxDeaths = 2
  Record = FALSE
SPECIFICATION Spec
INVARIANTS OneWriter OnlyOwners Complete Loss AtMostOnePartial Idle 
PROPERTY Finishes
CHECK_DEADLOCK FALSE

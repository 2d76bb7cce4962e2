CONSTANTS
  NP = 2
  NS = 5
  NT = 1
  Procs <- MCProcs
  Jobs <- MCJobs
  Tables <- MCTables
  Owners <- RoundRobin
  MaxDeaths = 1
  Record = TRUE
SPECIFICATION Spec
INVARIANTS OneWriter OnlyOwners Complete Loss AtMostOnePartial Idle Emit

CHECK_DEADLOCK FALSE

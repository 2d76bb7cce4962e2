CONSTANTS
  NP = 4
  NS = 3
  NT = 2
  Procs <- MCProcs
  Jobs <- MCJobs
  Tables <- MCTables
  Owners <- RoundRobin
  MaxDeaths = 1
  Record = TRUE
SPECIFICATION Spec
INVARIANTS OneWriter OnlyOwners Complete Loss AtMostOnePartial Idle Emit

CHECK_DEADLOCK FALSE

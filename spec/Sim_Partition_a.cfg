CONSTANTS
  NP = 3
  NS = 4
  NT = 2
  Procs <- MCProcs
  Jobs <- MCJobs
  Tables <- MCTables
  Owners <- RoundRobin
  MaxDeaths = 0
  Record = TRUE
SPECIFICATION Spec
INVARIANTS OneWriter OnlyOwners Complete Loss AtMostOnePartial Idle Emit

CHECK_DEADLOCK FALSE

CONSTANTS
  Spectra <- QSpectra
  Steps <- QSteps
  Densities <- QDensities
  Nus = {1, 2}
  MaxOps = 3
SPECIFICATION FSpec
INVARIANTS EndsAtOne StartKept ConsistentStays LastDensityDecides Emit
CHECK_DEADLOCK FALSE

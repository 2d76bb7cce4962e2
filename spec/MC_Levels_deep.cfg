SPECIFICATION LSpec
CONSTANTS
  Spins2 <- DSpins
  Ls <- DLs
  Energies <- DEnergies
  Widths <- MWidths
  Kappas <- DKappas
  Phases <- MPhases
INVARIANTS OneLevel TwoLevels Recursion Emit
CHECK_DEADLOCK FALSE

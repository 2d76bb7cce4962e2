SPECIFICATION LSpec
CONSTANTS
  Spins2 <- MSpins
  Ls <- MLs
  Energies <- MEnergies
  Widths <- MWidths
  Kappas <- MKappas
  Phases <- MPhases
INVARIANTS OneLevel TwoLevels Recursion Emit
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
CONSTANTS
  Exps = {0, 1, 2, 4}
  YExps = {0, 3}
  MinPoints = 2
  Laws = {1, 2, 3, 4, 5}
  MaxPoints = 4
INVARIANTS EveryIntervalHasOneLaw AtPointsTheOrdinate Between ZeroOutside StepsHaveNoArea IntegralBounded LawsOrdered Emit
CHECK_DEADLOCK FALSE

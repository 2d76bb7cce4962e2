SPECIFICATION TSpec
CONSTANTS
  Exps = {0, 1, 3}
  YExps = {0, 2}
  MinPoints = 4
  Laws = {1, 2, 3, 4, 5}
  MaxPoints = 4
INVARIANTS EveryIntervalHasOneLaw AtPointsTheOrdinate Between ZeroOutside StepsHaveNoArea IntegralBounded LawsOrdered Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 MaxSpectra = 2
 MaxModes = 3
INVARIANTS EndsAtTheEnd InOrder Conserved Told Injective Emit
CHECK_DEADLOCK FALSE

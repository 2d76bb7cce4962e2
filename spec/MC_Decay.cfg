SPECIFICATION Spec
CONSTANTS
 MaxSpectra = 2
 MaxModes = 2
INVARIANTS EndsAtTheEnd InOrder Conserved Told Injective Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 MaxShells = 2
 MaxOps = 3
INVARIANTS Reads ReadsAce Emit
PROPERTY Kept
CHECK_DEADLOCK FALSE

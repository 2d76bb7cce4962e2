SPECIFICATION Spec
CONSTANTS
 MaxShells = 3
 MaxOps = 4
INVARIANTS Reads ReadsAce Emit
PROPERTY Kept
CHECK_DEADLOCK FALSE

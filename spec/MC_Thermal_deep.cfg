SPECIFICATION Spec
CONSTANTS
 MaxE = 3
 MaxOut = 2
 MaxOps = 5
INVARIANTS ReadsInelastic ReadsDiscrete ReadsContinuous ReadsElastic Library Names EmitShape EmitHistory
PROPERTIES Keeps
CHECK_DEADLOCK FALSE

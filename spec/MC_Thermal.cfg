SPECIFICATION Spec
CONSTANTS
 MaxE = 2
 MaxOut = 2
 MaxOps = 4
INVARIANTS ReadsInelastic ReadsDiscrete ReadsContinuous ReadsElastic Library Names EmitShape EmitHistory
PROPERTIES Keeps
CHECK_DEADLOCK FALSE

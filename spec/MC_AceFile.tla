----------------------------- MODULE MC_AceFile -----------------------------
EXTENDS AceFile, TLC, Json
Emit == step = 0 => PrintT("CASE " \o ToJson([desc |-> desc]))
==============================================================================

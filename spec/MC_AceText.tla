----------------------------- MODULE MC_AceText -----------------------------
EXTENDS AceText, TLC, Json
Emit == Len(ops) = MaxOps /\ written = <<>> => PrintT("CASE " \o ToJson([base |-> base, ops |-> ops]))
==============================================================================

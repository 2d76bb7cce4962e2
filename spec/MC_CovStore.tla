----------------------------- MODULE MC_CovStore -----------------------------
EXTENDS CovStore, TLC, Json
Emit == Len(ops) = MaxOps => PrintT("CASE " \o ToJson([ops |-> ops]))
NoOps == <<disk, mem, open, accepted, Len(ops)>>
==============================================================================

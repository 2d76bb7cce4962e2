----------------------------- MODULE MC_Library -----------------------------
EXTENDS Library, TLC, Json
Emit == Len(ops) = MaxOps => PrintT("CASE " \o ToJson([ops |-> ops]))
\* histories of one kind: register, write, move or go elsewhere, read
Plot == <<{"reg"}, {"reg"}, {"reg", "find"}, {"export"}, {"new"}, {"move", "chdir"}, {"move", "chdir"}, {"import"}, {"reg", "chdir"}, {"find", "export"}>>
PlotNext == LNext /\ ops'[Len(ops')].k \in Plot[Len(ops')]
PlotSpec == LInit /\ [][PlotNext]_lvars
View == <<st, was, Len(ops)>>
===============================================================================

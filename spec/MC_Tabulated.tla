---------------------------- MODULE MC_Tabulated ----------------------------
EXTENDS Tabulated, TLC, Json
Emit == pos = 1 => PrintT("CASE " \o ToJson([a |-> tb.a, b |-> tb.b, bp |-> tb.bp, law |-> tb.law]))
==============================================================================

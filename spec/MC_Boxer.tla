------------------------------ MODULE MC_Boxer ------------------------------
EXTENDS Boxer, TLC, Json
Emit == (Complete \/ cell % 3 = 2) => PrintT("CASE " \o ToJson([n |-> Len(mtx), sym |-> sym, pages |-> pages, ok |-> Complete]))
==============================================================================

------------------------------ MODULE MC_Groups ------------------------------
EXTENDS Groups, TLC, Json
\* one case per structure and range; the driver maps every tick in several orders
Emit == es = <<>> => PrintT("CASE " \o ToJson([high |-> high, lo |-> lo, hi |-> hi]))
==============================================================================

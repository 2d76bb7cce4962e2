------------------------------ MODULE MC_Algebra ------------------------------
EXTENDS Algebra, TLC, Json
QOff == {-4, -1, 0, 2, 4}
DOff == {-4, -3, -1, 0, 1, 2, 4}
DDiag == {-1, 0, 1, 3, 4}
Emit == kind = "given" => PrintT("CASE " \o ToJson([m |-> mat]))
===============================================================================

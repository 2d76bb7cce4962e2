----------------------------- MODULE MC_Grid -----------------------------
EXTENDS Grid, TLC, Json
Tols == {[num |-> 1, den |-> 8], [num |-> 1, den |-> 2], [num |-> 10, den |-> 73]}
Vals == {-2, 0, 1, 5}
DeepVals == {-2, 0, 1, 5, 8}
Emit == (f[1] < f[2] \/ f[3] = 5) => PrintT("CASE " \o ToJson([f |-> f, init |-> init, num |-> tol.num, den |-> tol.den]))
==========================================================================

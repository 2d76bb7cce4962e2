------------------------------ MODULE MC_Fission ------------------------------
EXTENDS Fission, TLC, Json
QSpectra == {<<[P |-> <<1, 2, 1>>, C |-> <<0, 2, 3>>, D |-> 3], [P |-> <<1, 1, 3>>, C |-> <<0, 1, 4>>, D |-> 4]>>,
             <<[P |-> <<2, 1, 1>>, C |-> <<1, 3, 8>>, D |-> 8]>>}
QSteps == {<<0, 1, 1>>, <<0, 2, 1>>}
QDensities == {<<1, 1, 1>>, <<2, 1, 3>>, <<3, 0, 2>>}
Emit == Len(ops) = MaxOps /\ tabs # orig.tabs /\ Len(tabs) = 2 /\ dE = <<0, 1, 1>> => PrintT("CASE " \o ToJson([ops |-> ops]))
==============================================================================

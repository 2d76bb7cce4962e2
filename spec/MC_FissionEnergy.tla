---------------------------- MODULE MC_FissionEnergy ----------------------------
EXTENDS FissionEnergy, TLC, Json
QCoefs == {<<5000000, -266, 7, 3>>, <<100, 1500, -300, -2>>, <<200000000, 0, 300000000, 1>>, <<30000, 12, -2000000, 0>>}
QNus == {[k |-> "tab", x |-> <<0, 10, 20>>, y |-> <<20, 21, 30>>], [k |-> "poly", c |-> <<20>>], [k |-> "poly", c |-> <<20, 10>>], [k |-> "poly", c |-> <<20, 10, -3>>]}
T(i) == [ifc |-> i, x |-> IF i % 2 = 0 THEN <<0, 20>> ELSE <<0, 5, 20>>, y |-> IF i % 2 = 0 THEN <<1000 * i, 7>> ELSE <<1000 * i, 2, 4>>]
QTables == {<<>>} \cup {<<T(i)>> : i \in 1..9} \cup {<<T(i), T(j)>> : i, j \in 1..9} \cup {[i \in 1..7 |-> T(i)], [i \in 1..9 |-> T(10 - i)]}
DTables == QTables \cup {<<T(i), T(j), T(k)>> : i, j, k \in 1..9}
Emit == (np >= 0 /\ f = AfterList(cs, np)) => PrintT("CASE " \o ToJson([np |-> np, c |-> cs[1], nu |-> nu.k, deg |-> IF nu.k = "poly" THEN Len(nu.c) ELSE 0, ifcs |-> [i \in DOMAIN todo |-> todo[i].ifc]]))
=================================================================================

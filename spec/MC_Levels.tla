---------------------------- MODULE MC_Levels ----------------------------
EXTENDS Levels, Json
MSpins == {0, 1, 5}
MLs == 0..4
MEnergies == {F(1, 1), F(3, 1), -F(2, 1)}
MWidths == {F(1, 4), F(1, 1)}
MKappas == {F(17, 10)}
MPhases == {<<F(3, 5), F(4, 5)>>}
DSpins == {0, 1, 2, 3, 5}
DLs == 0..4
DEnergies == {F(1, 1), F(9, 4), F(3, 1), -F(2, 1), -F(5, 4)}
DKappas == {F(12, 10), F(17, 10)}
Emit == (e1 # 0 /\ gn = F(1, 4)) => PrintT("CASE " \o ToJson([I2 |-> I2, l |-> l1, J2 |-> J2, bound |-> e1 < 0, wide |-> gg > gn, fissions |-> gf > 0]))
===========================================================================

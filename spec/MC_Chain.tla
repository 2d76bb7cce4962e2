-------------------------------- MODULE MC_Chain --------------------------------
EXTENDS Chain, Json
CONSTANTS NT, RX
N(b) == IF b THEN 1 ELSE 0
\* temperatures, reactions, with nu, with chi: tapes 1..nt are cross sections, then nu, then chi
Ask(nt, S, nu, chi, temp) == [nt |-> nt, rx |-> S, nu |-> nu, chi |-> chi, temp |-> temp, tapes |-> 1..(nt + N(nu) + N(chi)),
    mts |-> S \cup (IF nu THEN {452} ELSE {}) \cup (IF chi THEN {18, 1018} ELSE {})]
All == {Ask(n, S, nu, chi, b) : n \in 1..NT, S \in (SUBSET RX), nu \in BOOLEAN, chi \in BOOLEAN, b \in BOOLEAN}
Few == {Ask(1, {102}, FALSE, FALSE, b) : b \in BOOLEAN} \cup {Ask(1, {}, FALSE, TRUE, b) : b \in BOOLEAN} \cup {Ask(2, {}, TRUE, FALSE, b) : b \in BOOLEAN}
Begun == pc = "njoy" /\ run = MaxRuns
Emit == Begun => PrintT("CASE " \o ToJson([runs |-> [i \in 1..Len(hist) |-> [nt |-> hist[i].q.nt, rx |-> hist[i].q.rx, nu |-> hist[i].q.nu, chi |-> hist[i].q.chi,
            temp |-> hist[i].q.temp, f |-> hist[i].f]]]))
Stage == <<hist, pc, todo>>
=================================================================================

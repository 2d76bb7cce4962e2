------------------------------ MODULE MC_Editor ------------------------------
EXTENDS Editor, TLC, Json
\* four grid points; thresholds of levels above the start.  Sums on a file cover
\* the grids of their constituents, as on any ACE file.
Thr(mt) == CASE mt \in {51, 600, 650} -> 2 [] mt \in {52, 601, 875} -> 3 [] mt \in {4, 103} -> 2 [] mt = 16 -> 3 [] OTHER -> 1
T(mts) == [mt \in mts |-> [first |-> Thr(mt), y |-> [i \in 1..(5 - Thr(mt)) |-> 100 + 8 * (mt % 13) + i]]]
MCFiles == {T(s) : s \in {
    {1, 2, 101, 102},
    {1, 2, 4, 51, 52, 101, 102},
    {1, 2, 51, 52, 101, 102, 103, 600, 601},
    {1, 2, 3, 4, 51, 16, 875, 101, 102, 103, 600},
    {1, 2, 18, 19, 20, 101, 102},
    {1, 2, 19, 38, 27, 101, 102},
    {1, 2, 3, 18, 19, 27, 101, 102, 22, 5},
    {1, 2, 3, 101, 104, 650, 117, 197, 155, 10}}}
MCDeltas == <<4, -2, 8>>
Emit == Len(ops) = MaxOps => PrintT("CASE " \o ToJson([ops |-> ops, file |-> [mt \in DOMAIN orig |-> orig[mt]]]))
View == <<orig, cur, adj, applied, Len(ops), EditedLeavesOnly>>
==============================================================================

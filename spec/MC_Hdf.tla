-------------------------------- MODULE MC_Hdf --------------------------------
EXTENDS Hdf, Json
CONSTANTS Shapes
Leaf(mt, k) == <<mt * k, mt + 3 * k>>
\* a table with the given partial reactions, all sums above them that the file lists, at one temperature
Leaves(mt, S) == {m \in (S \cap Below(mt)) \cup {mt} : S \cap Below(m) = {}}
Table(name, T, k, S, photons, fis) ==
    [name |-> name, temps |-> {T}, urr |-> IF k % 2 = 1 THEN (T :> k) ELSE <<>>,
     rx |-> [mt \in S |-> LET ls == Leaves(mt, S) IN
        [xs |-> (T :> Total([x \in ls |-> Leaf(x, k)])), red |-> ls # {mt}, photon |-> mt \in photons,
         nu |-> IF mt \in Fission /\ fis THEN "nu" ELSE "", built |-> FALSE, body |-> ToString(mt)]]]
\* reactions of a shape: fission as a whole, by chances, both; levels with and without their sum; ...
ShapeSet == <<{1, 2, 102, 101}, {1, 2, 18, 102, 101}, {1, 2, 18, 19, 20, 102, 101}, {1, 2, 19, 20, 102}, {1, 2, 4, 51, 52, 102, 103, 600, 601}, {1, 2, 3, 4, 51, 27, 18, 19, 101, 102, 16, 875}>>
PhotonSet == <<{}, {102, 18}, {18}, {4, 102}, {4, 3}, {1, 27}>>
Id(x, s) == x \o ToString(s)
\* each nuclide at three temperatures, the third with a reaction more
TheTables == [k \in UNION {{Id(x, s) : x \in {"a", "b", "c"}} : s \in Shapes} |->
    LET s == CHOOSE s \in Shapes : \E x \in {"a", "b", "c"} : Id(x, s) = k
        x == CHOOSE x \in {"a", "b", "c"} : Id(x, s) = k IN
    IF x = "a" THEN Table(Id("N", s), "300K", s, ShapeSet[s], PhotonSet[s], TRUE)
    ELSE IF x = "b" THEN Table(Id("N", s), "600K", s + 7, ShapeSet[s], PhotonSet[s], TRUE)
    ELSE Table(Id("N", s), "900K", s + 12, ShapeSet[s] \cup {22}, {}, TRUE)]
Descending == <<107, 106, 105, 104, 103, 101, 27, 18, 16, 4, 3, 1>>
Good == <<18, 107, 106, 105, 104, 103, 101, 27, 16, 4, 3, 1>>
TwoFiles == {"f", "g"}
OneFile == {"f"}
Stage == <<mem, disk, orig, Len(hist)>>
\* histories: what was done (the contents are the driver's)
Emit == Len(hist) = MaxOps => PrintT("CASE " \o ToJson([ops |-> hist]))
===============================================================================

----------------------------- MODULE MC_Pipeline -----------------------------
EXTENDS Pipeline, TLC, Json
CONSTANTS Deep
R(f, y) == [first |-> f, y |-> y]
QBases == {
    (1 :> R(1, <<40, 41>>)) @@ (2 :> R(1, <<7, 9>>)) @@ (101 :> R(1, <<13, 11>>)) @@ (102 :> R(1, <<12, 10>>))
        @@ (51 :> R(2, <<3>>)) @@ (52 :> R(2, <<5>>)),
    (1 :> R(1, <<40, 41>>)) @@ (2 :> R(1, <<7, 9>>)) @@ (101 :> R(1, <<12, 10>>)) @@ (102 :> R(1, <<12, 10>>))
        @@ (4 :> R(1, <<0, 8>>)) @@ (51 :> R(2, <<3>>)),
    (1 :> R(1, <<60, 61>>)) @@ (2 :> R(1, <<7, 9>>)) @@ (101 :> R(1, <<13, 11>>)) @@ (103 :> R(1, <<0, 4>>))
        @@ (600 :> R(1, <<0, 3>>)) @@ (601 :> R(2, <<2>>)),
    (1 :> R(1, <<60, 61>>)) @@ (18 :> R(1, <<20, 22>>)) @@ (19 :> R(1, <<15, 17>>)) @@ (20 :> R(2, <<6>>))
        @@ (101 :> R(1, <<13, 11>>)) @@ (102 :> R(1, <<12, 10>>)) @@ (16 :> R(2, <<1>>)),
    (1 :> R(1, <<60, 61>>)) @@ (3 :> R(1, <<33, 31>>)) @@ (2 :> R(1, <<7, 9>>)) @@ (27 :> R(1, <<25, 23>>))
        @@ (18 :> R(1, <<20, 22>>)) @@ (102 :> R(1, <<12, 10>>))}
Mts(t) == DOMAIN t \ {101}
\* all requests of at most 2 (3) different reactions
QRequests == UNION {{s \in [1..n -> UNION {DOMAIN t : t \in QBases}] : Cardinality({s[i] : i \in 1..n}) = n} : n \in 1..(IF Deep THEN 3 ELSE 2)}
ReqOf(t) == {s \in QRequests : \A i \in 1..Len(s) : s[i] \in DOMAIN t}
QPatterns == IF Deep THEN {<<2, 3>>, <<1, 2>>} ELSE {<<2, 3>>, <<3, 1>>}
QZeros == {{}, {1}, {1, 2}}
\* factors matter only for requested reactions; keep the others at one pattern
MCInit == /\ base \in Bases
          /\ queue \in ReqOf(base)
          /\ zero \in Zeros
          /\ \E k \in [ToSet(queue) -> Patterns] :
                fac = [m \in DOMAIN base |-> IF m \in ToSet(queue) THEN k[m] ELSE CHOOSE p \in Patterns : TRUE]
          /\ done = {} /\ cur = base /\ adj = {} /\ text = <<>>
MCSpec == MCInit /\ [][PNext]_pvars
\* each request once, as a case for the command
Emit == (done = {} /\ zero = {} /\ \A m \in ToSet(queue) : fac[m] = CHOOSE p \in Patterns : TRUE) =>
    PrintT("CASE " \o ToJson([mts |-> queue, file |-> {[mt |-> m, first |-> base[m].first] : m \in DOMAIN base}]))
==============================================================================

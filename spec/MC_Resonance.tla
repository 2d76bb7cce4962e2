---------------------------- MODULE MC_Resonance ----------------------------
(* Evaluations with few resonances: what their ranges are is chosen, sections  *)
(* with small numbers are built and read, resonances are chosen by bounds.     *)
EXTENDS Resonance, Json

CONSTANTS Nls, Bounds, MaxOps, Pairing
VARIABLES ch, s, c, cur, ops
vars == <<ch, s, c, cur, ops>>

Awr == 120
Rec(cc, n, r, v) == [c |-> cc, n |-> n, r |-> r, v |-> v]
Cont(c1, c2, l1, l2, n1, n2) == Rec(<<c1, c2>>, <<l1, l2, n1, n2>>, <<>>, <<>>)
Lst(c1, c2, l1, l2, n2, v) == Rec(<<c1, c2>>, <<l1, l2, Len(v), n2>>, <<>>, v)
Ap == Rec(<<0, 0>>, <<0, 0, 1, 2>>, <<<<2, 2>>>>, <<8, 3, 512, 5>>)

Unr == {"ura", "urb", "urc"}
LruOf(k) == IF k = "radius" THEN 0 ELSE IF k \in Unr THEN 2 ELSE 1
LrfOf(k) == CASE k = "slbw" -> 1 [] k = "mlbw" -> 2 [] k = "rm" -> 3 [] k = "rml" -> 7 [] k \in {"ura", "urb"} -> 1 [] k = "urc" -> 2 [] OTHER -> 0
\* energies of the resonances of angular momentum l: interleaved
Es(l) == IF l = 0 THEN <<8, 32, 48>> ELSE <<24, 40>>
Width(e, j) == (e \div 8) + j
ResRow(k, e) == IF k = "rm" THEN <<e, 4, Width(e, 1), Width(e, 2), Width(e, 3), Width(e, 4)>>
                ELSE <<e, 4, Width(e, 1) + Width(e, 2) + Width(e, 3) + Width(e, 4), Width(e, 1), Width(e, 2), Width(e, 3)>>
ResList(r, l) == Lst(Awr, IF r.k = "rm" THEN r.x ELSE 16, l, IF r.k = "rm" THEN 0 ELSE r.x, Len(Es(l)), Flat([m \in DOMAIN Es(l) |-> ResRow(r.k, Es(l)[m])]))
PairV == <<8, 120, 0, 0, 4, 0, 0, 8, 0, 16, 8, 8>> \o <<0, 120, 0, 0, 8, 0, 16, 0, 0, 816, 8, 8>> \o <<8, 120, 0, 0, 4, 0, -8, 8, 0, 408, 8, 8>>
RangeRecs(r) ==
    LET nro == r.nro
        top == <<Cont(8, 512, LruOf(r.k), LrfOf(r.k), nro, r.naps)>> \o (IF nro = 1 THEN <<Ap>> ELSE <<>>) IN
    CASE r.k = "radius" -> top \o <<Cont(4, 7, 0, 0, 0, 0)>>
      [] r.k \in {"slbw", "mlbw", "rm"} -> top \o <<Cont(4, 7, 0, 0, r.nls, 2)>> \o [l \in 1..r.nls |-> ResList(r, l - 1)]
      [] r.k = "rml" -> top \o <<Cont(0, 0, 0, 3, r.nls, 0), Lst(0, 0, 3, 0, 6, PairV)>>
            \o Flat([g \in 1..r.nls |->
                <<Lst(IF g = 1 THEN -12 ELSE 0, 8, 0, 0, r.x, Flat([j \in 1..r.x |-> <<8 * (1 + ((j - 1) % 3)), 8 * g, 4, 0, j, j + 1>>])),
                  LET m == 6 * ((r.x \div 6) + 1) IN
                  Lst(0, 0, 0, 2, 2, Flat([e \in 1..2 |-> [q \in 1..m |-> IF q <= r.x + 1 THEN (100 * e) + q ELSE 0]]))>>])
      [] r.k = "ura" -> top \o <<Cont(4, 7, 1, 0, r.nls, 0)>> \o [l \in 1..r.nls |-> Lst(Awr, 0, l - 1, 0, 2, <<9, 4, 8, l, 5, 0, 10, 12, 16, l + 1, 6, 0>>)]
      [] r.k = "urb" -> top \o <<Lst(4, 7, 0, 0, r.nls, <<8, 64, 512>>)>>
            \o Flat([l \in 1..r.nls |-> <<Cont(Awr, 0, l - 1, 0, r.x, 0)>> \o [j \in 1..r.x |-> Lst(0, 0, l - 1, 2, 0, <<9, 4 * j, 8, 3, 5, 0, 11 * j, 12 * j, 13 * j>>)]])
      [] OTHER -> top \o <<Cont(4, 7, 0, 0, r.nls, 0)>>
            \o Flat([l \in 1..r.nls |-> <<Cont(Awr, 0, l - 1, 0, r.x, 0)>> \o [j \in 1..r.x |-> Lst(4 * j, 0, 2, 0, 2, <<0, 0, 8, 16, 0, 8, 8, 20, 1, 2, 3, 4, 512, 21, 5, 6, 7, 8>>)]])
Build2(isos) == <<Cont(8 * 92235, Awr, 0, 0, Len(isos), 0)>>
    \o Flat([m \in DOMAIN isos |-> <<Cont(8 * (92234 + m), 8, 0, isos[m].lfw, Len(isos[m].rs), 0)>> \o Flat([j \in DOMAIN isos[m].rs |-> RangeRecs(isos[m].rs[j])])])

\* file 32: resonances in the order of file 2 or by energy
LSeq(r) == Flat([l \in 1..r.nls |-> Es(l - 1)])
ByE(r) == IF r.nls = 1 THEN Es(0) ELSE <<8, 24, 32, 40, 48>>
Tri(n, f(_, _)) == Flat([a \in 1..n |-> [q \in 1..(n - a + 1) |-> f(a, a + q - 1)]])
CovBlock(k, es, m) == Lst(0, 0, m, 0, Len(es), Flat([j \in DOMAIN es |-> ResRow(k, es[j])]) \o Tri(m * Len(es), LAMBDA a, b : IF a = b THEN 10 + a ELSE (a + (2 * b)) % 5))
Unc12(k, e, m) == ResRow(k, e) \o (IF k = "rm" THEN <<2, 0>> ELSE <<2, 0, 0>>) \o (IF k = "rm" THEN [q \in 1..4 |-> IF q < m THEN q ELSE 0] ELSE [q \in 1..3 |-> IF q < m THEN q ELSE 0])
CovRecs(r, v) ==
    LET es == IF v.ord = "E" THEN ByE(r) ELSE LSeq(r)
        n == v.m * Len(es) IN
    <<Cont(8, 512, LruOf(r.k), LrfOf(r.k), 0, r.naps), Cont(4, 7, 0, v.lcomp, IF v.lcomp = 0 THEN r.nls ELSE 0, 0)>>
    \o CASE v.lcomp = 1 -> <<Cont(Awr, 0, 0, 0, v.nb, 0)>> \o (IF v.nb = 1 THEN <<CovBlock(r.k, es, v.m)>> ELSE <<CovBlock(r.k, SubSeq(es, 1, 2), v.m), CovBlock(r.k, SubSeq(es, 3, Len(es)), v.m)>>)
         [] v.lcomp = 2 -> <<Lst(Awr, 0, 0, 0, Len(es), Flat([j \in DOMAIN es |-> Unc12(r.k, es[j], v.m)])),
                             Rec(<<0, 0>>, <<2, n, 2, 0>>, <<<<2, 1, 50>>, <<n, 1, 0, -20, 30>>>>, <<>>)>>
         [] OTHER -> [l \in 1..r.nls |-> Lst(Awr, 0, l - 1, 0, Len(Es(l - 1)), Flat([m \in DOMAIN Es(l - 1) |-> LET e == Es(l - 1)[m] IN ResRow(r.k, e) \o [q \in 1..12 |-> IF q \in {1, 2, 4, 7} THEN 20 + e + q ELSE IF q \in {3, 5, 6} THEN q ELSE 0]]))]
HasCov(x) == \E m \in DOMAIN x.cov : x.cov[m] # <<>>
Build32(x) == <<Cont(8 * 92235, Awr, 0, 0, Len(x.isos), 0)>>
    \o Flat([m \in DOMAIN x.isos |-> <<Cont(8 * (92234 + m), 8, 0, x.isos[m].lfw, Len(x.isos[m].rs), 0)>>
        \o Flat([j \in DOMAIN x.isos[m].rs |-> IF LruOf(x.isos[m].rs[j].k) = 2 THEN <<Cont(8, 512, 2, 1, 0, 0), Cont(4, 7, 0, 0, 1, 0)>> ELSE CovRecs(x.isos[m].rs[j], x.cov[m])])])

(***************************************************************************)
(* Choices                                                                 *)
(***************************************************************************)
R(k, nro, naps, nls, x) == [k |-> k, nro |-> nro, naps |-> naps, nls |-> nls, x |-> x]
RadiusFlags == {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>, <<1, 2>>}
BwRanges == {R(k, f[1], f[2], n, x) : k \in {"slbw", "mlbw"}, f \in RadiusFlags, n \in Nls, x \in {0, 1}}
RmRanges == {R("rm", f[1], f[2], n, x) : f \in RadiusFlags, n \in Nls, x \in {0, 9}}
OtherRanges == {R("radius", 0, 0, 1, 0)} \cup {R("rml", 0, 0, n, x) : n \in Nls, x \in {1, 2, 5, 6, 7}}
UnrRanges == {R(k, nro, 0, n, x) : k \in Unr, nro \in {0, 1}, n \in Nls, x \in {1, 2}}
Iso(rs) == [rs |-> rs, lfw |-> IF \E j \in DOMAIN rs : rs[j].k = "urb" THEN 1 ELSE 0]
CovOf(r) == IF r.k \notin {"slbw", "mlbw", "rm"} THEN {<<>>} ELSE
    {<<>>} \cup {[lcomp |-> 1, m |-> m, nb |-> nb, ord |-> o] : m \in 3..5, nb \in {1, 2}, o \in {"E", "L"}}
           \cup {[lcomp |-> 2, m |-> m, nb |-> 1, ord |-> o] : m \in 3..(IF r.k = "rm" THEN 5 ELSE 4), o \in {"E", "L"}}
           \cup (IF r.k = "rm" THEN {} ELSE {[lcomp |-> 0, m |-> 4, nb |-> 1, ord |-> "L"]})
PlainOnes == {R("mlbw", 0, 1, 2, 1), R("rm", 0, 0, 2, 0), R("slbw", 0, 0, 1, 0)}
Choices ==
    {[isos |-> <<Iso(<<r>>)>>, cov |-> <<v>>] : r \in BwRanges \cup RmRanges, v \in {<<>>}}
    \cup UNION {{[isos |-> <<Iso(<<r>>)>>, cov |-> <<v>>] : v \in CovOf(r)} : r \in PlainOnes \cup {R("rm", 0, 1, 1, 9), R("slbw", 0, 1, 2, 1)}}
    \cup {[isos |-> <<Iso(<<r>>)>>, cov |-> <<<<>>>>] : r \in OtherRanges \cup UnrRanges}
    \cup (IF ~Pairing THEN {} ELSE
         {[isos |-> <<Iso(<<r, u>>)>>, cov |-> <<v>>] : r \in PlainOnes \cup OtherRanges, u \in UnrRanges, v \in {<<>>}}
         \cup {[isos |-> <<Iso(<<R("mlbw", 0, 1, 2, 1), u>>)>>, cov |-> <<[lcomp |-> 1, m |-> 4, nb |-> 1, ord |-> "E"]>>] : u \in UnrRanges}
         \cup {[isos |-> <<Iso(<<r>>), Iso(<<r2>>)>>, cov |-> <<v, w>>] : r \in PlainOnes, r2 \in PlainOnes,
                  v \in {[lcomp |-> 1, m |-> 3, nb |-> 1, ord |-> "E"], [lcomp |-> 2, m |-> 3, nb |-> 1, ord |-> "L"]}, w \in {[lcomp |-> 1, m |-> 4, nb |-> 2, ord |-> "E"]}})

(***************************************************************************)
(* Steps                                                                   *)
(***************************************************************************)
F2 == Build2(ch.isos)
F32 == Build32(ch)
None == [k |-> "none"]
RInit == /\ ch \in Choices /\ s = ReadStart(Build2(ch.isos)) /\ ops = 0 /\ cur = None
         /\ c = IF HasCov(ch) THEN CovStart(Build32(ch)) ELSE [i |-> 2, iso |-> 0, left |-> 0, nth |-> 0, out |-> <<>>]
RNext ==
    \/ ~ReadDone(s) /\ s' = ReadStep(F2, s, Awr) /\ UNCHANGED <<ch, c, cur, ops>>
    \/ ReadDone(s) /\ ~ReadDone(c) /\ c' = CovStep(F32, c, s.out) /\ UNCHANGED <<ch, s, cur, ops>>
    \/ /\ ReadDone(s) /\ ReadDone(c) /\ ops < MaxOps
       /\ \/ cur = None /\ \E j \in DOMAIN c.out : cur' = c.out[j]
          \/ cur # None /\ \E b \in Bounds : (b[1] = "captureWidth" \/ cur.k # "rm" \/ b[1] # "totalWidth") /\ cur' = Subset(cur, b[1], b[2], b[3])
       /\ ops' = ops + 1 /\ UNCHANGED <<ch, s, c>>
RSpec == RInit /\ [][RNext]_vars

\* reading uses up the records
Consumed == (ReadDone(s) => s.i = Len(F2) + 1) /\ (HasCov(ch) /\ ReadDone(c) => c.i = Len(F32) + 1)
\* every range is there, in order
AllRanges == ReadDone(s) => [m \in DOMAIN s.out |-> s.out[m].k] = Flat([m \in DOMAIN ch.isos |-> [j \in DOMAIN ch.isos[m].rs |-> ch.isos[m].rs[j].k]])
\* the widths of a Breit-Wigner resonance add up to the total one
Widths == \A m \in DOMAIN s.out : s.out[m].k \in {"slbw", "mlbw"} => \A q \in DOMAIN s.out[m].rows : LET w == s.out[m].rows[q] IN
    w[4] - (w[5] + w[6] + w[7]) \in {w[8], Width(w[1], 4)}
\* each angular momentum has its radii; without energy dependence the scattering radius is the one given
Radii == \A m \in DOMAIN s.out : s.out[m].k \in {"slbw", "mlbw", "rm"} =>
    Len(s.out[m].chan) = Len(s.out[m].ls) /\ \A j \in DOMAIN s.out[m].ls : s.out[m].scat[j] = s.out[m].chan[j] \/ s.out[m].chan[j].k \in {"mass", "const"}
Symmetric == \A m \in DOMAIN c.out : LET v == c.out[m].cov IN \A a, b \in DOMAIN v : v[a][b] = v[b][a]
Dim == \A m \in DOMAIN c.out : Len(c.out[m].cov) = c.out[m].mpar * Len(c.out[m].rows)
\* the resonances of file 32 are those of file 2, with their angular momentum
SameRes == \A m \in DOMAIN c.out : LET f == s.out[CHOOSE q \in DOMAIN s.out : s.out[q].k = c.out[m].k /\ Len(s.out[q].rows) = Len(c.out[m].rows)] IN
    {c.out[m].rows[j] : j \in DOMAIN c.out[m].rows} = {f.rows[j] : j \in DOMAIN f.rows}
\* resonances of other blocks do not vary together
Apart == \A m \in DOMAIN c.out : (Len(c.out) = 1 /\ ch.cov[1] # <<>> /\ ch.cov[1].lcomp = 1 /\ ch.cov[1].nb = 2) =>
    LET d == 2 * c.out[m].mpar IN \A a \in 1..d, b \in (d + 1)..Len(c.out[m].cov) : c.out[m].cov[a][b] = 0
\* what is chosen keeps its uncertainty, and its correlations with what is also chosen
Chosen == cur # None => \E m \in DOMAIN c.out : LET o == c.out[m]
                                                     at(e) == CHOOSE j \in DOMAIN o.rows : o.rows[j][1] = e IN
    /\ o.k = cur.k /\ o.mpar = cur.mpar /\ Len(cur.cov) = Len(cur.rows) * cur.mpar
    /\ \A x \in DOMAIN cur.rows : cur.rows[x] \in {o.rows[j] : j \in DOMAIN o.rows}
    /\ \A x, y \in DOMAIN cur.rows : \A a, b \in 1..cur.mpar :
        cur.cov[((x - 1) * cur.mpar) + a][((y - 1) * cur.mpar) + b] = o.cov[((at(cur.rows[x][1]) - 1) * o.mpar) + a][((at(cur.rows[y][1]) - 1) * o.mpar) + b]
Emit == (ops = 0 /\ s = ReadStart(F2)) => PrintT("CASE " \o ToJson(ch))

QNls == {1, 2}
QBounds == {<<"energy", 0, 30>>, <<"energy", 30, 600>>, <<"L", 1, 1>>, <<"captureWidth", 4, 7>>, <<"totalWidth", 0, 20>>}
DBounds == QBounds \cup {<<"energy", 24, 40>>, <<"J", 0, 9>>, <<"neutronWidth", 3, 6>>, <<"L", 0, 0>>, <<"energy", 600, 700>>}
================================================================================

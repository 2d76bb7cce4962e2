------------------------------ MODULE Resonance ------------------------------
(* Resonance parameters (file 2) and their covariances (file 32).              *)
(* A section is a sequence of records [c, n, r, v]: two reals, four integers,  *)
(* interpolation regions and values.  Reals are in eighths.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Col(v, n, k) == [i \in 1..(Len(v) \div n) |-> v[(i - 1) * n + k]]
Row(v, n, i) == SubSeq(v, (i - 1) * n + 1, i * n)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Sum(s) == LET RECURSIVE F(_)
              F(t) == IF t = <<>> THEN 0 ELSE t[1] + F(Tail(t)) IN F(s)

(***************************************************************************)
(* File 2.  A range starts at record i: [EL, EH; LRU, LRF, NRO, NAPS].     *)
(* Radii are [k: const, v] | [k: tab, t: record] | [k: mass, a]: the last  *)
(* follows from the mass of the target, 0.123 A^(1/3) + 0.08.              *)
(***************************************************************************)
Const(v) == [k |-> "const", v |-> v]
Tab(r) == [k |-> "tab", t |-> r]
Mass(a) == [k |-> "mass", a |-> a]
Lru(recs, i) == recs[i].n[1]
Lrf(recs, i) == recs[i].n[2]
Nro(recs, i) == recs[i].n[3]
Naps(recs, i) == recs[i].n[4]
Kind(recs, i, lfw) ==
    CASE Lru(recs, i) = 0 -> "radius"
      [] Lru(recs, i) = 2 -> (IF Lrf(recs, i) = 2 THEN "urc" ELSE IF lfw = 1 THEN "urb" ELSE "ura")
      [] Lrf(recs, i) = 1 -> "slbw"
      [] Lrf(recs, i) = 2 -> "mlbw"
      [] Lrf(recs, i) = 3 -> "rm"
      [] OTHER -> "rml"
\* the record with spin and radius, past a radius that depends on the energy
Base(recs, i) == i + 1 + Nro(recs, i)
\* records of a list of spin states: a control record and its n[3] lists
RECURSIVE Groups(_, _, _)
Groups(recs, i, n) == IF n = 0 THEN <<>> ELSE <<i>> \o Groups(recs, i + 1 + recs[i].n[3], n - 1)
RECURSIVE GroupsLen(_, _, _)
GroupsLen(recs, i, n) == IF n = 0 THEN 0 ELSE 1 + recs[i].n[3] + GroupsLen(recs, i + 1 + recs[i].n[3], n - 1)
RangeLen(recs, i, lfw) ==
    LET k == Kind(recs, i, lfw)
        b == Base(recs, i)
        h == b + 1 - i IN
    CASE k = "radius" -> h
      [] k \in {"slbw", "mlbw", "rm", "ura"} -> h + recs[b].n[3]
      [] k = "rml" -> h + 1 + 2 * recs[b].n[3]
      [] k = "urc" -> h + GroupsLen(recs, b + 1, recs[b].n[3])
      [] OTHER -> h + GroupsLen(recs, b + 1, recs[b].n[4])

\* the radii of one angular momentum: ap is the constant that holds for it
Scatter(recs, i, ap) == IF Nro(recs, i) = 0 THEN Const(ap) ELSE Tab(recs[i + 1])
Channel(recs, i, ap, awri) ==
    CASE Naps(recs, i) = 0 -> Mass(awri)
      [] Naps(recs, i) = 1 -> Scatter(recs, i, ap)
      [] OTHER -> Const(ap)
\* Breit-Wigner: energy, l, J, total, neutron, capture, fission and competitive width
BwRow(v, l, lrx) == <<v[1], l, v[2], v[3], v[4], v[5], v[6], IF lrx > 0 THEN v[3] - (v[4] + v[5] + v[6]) ELSE 0>>
\* Reich-Moore: energy, l, J, neutron, capture and the two fission widths
RmRow(v, l) == <<v[1], l, v[2], v[3], v[4], v[5], v[6]>>
LRows(r, rm) == [m \in 1..(Len(r.v) \div 6) |-> IF rm THEN RmRow(Row(r.v, 6, m), r.n[1]) ELSE BwRow(Row(r.v, 6, m), r.n[1], r.n[2])]
Resolved(recs, i, k) ==
    LET b == Base(recs, i)
        nls == recs[b].n[3]
        at(j) == recs[b + j]
        ap(j) == IF k = "rm" /\ at(j).c[2] # 0 THEN at(j).c[2] ELSE recs[b].c[2] IN
    [k |-> k, lo |-> recs[i].c[1], hi |-> recs[i].c[2], spin |-> recs[b].c[1],
     ls |-> [j \in 1..nls |-> at(j).n[1]],
     chan |-> [j \in 1..nls |-> Channel(recs, i, ap(j), at(j).c[1])],
     scat |-> [j \in 1..nls |-> Scatter(recs, i, ap(j))],
     qx |-> IF k = "rm" THEN <<>> ELSE [j \in 1..nls |-> at(j).c[2]],
     awri |-> at(nls).c[1],
     extra |-> IF k = "rm" THEN <<recs[b].n[2], recs[b].n[4]>> ELSE <<>>,
     rows |-> Flat([j \in 1..nls |-> LRows(at(j), k = "rm")])]

\* R-matrix limited: particle pairs, then for each spin group its channels and widths
Pair(v) == [m1 |-> v[1], m2 |-> v[2], z1 |-> v[3] \div 8, z2 |-> v[4] \div 8, s1 |-> v[5], s2 |-> v[6], q |-> v[7], pen |-> v[8], sh |-> v[9], mt |-> v[10] \div 8, p1 |-> v[11], p2 |-> v[12]]
WidthName(mt) == CASE mt = 2 -> "neutronWidth" [] mt = 18 -> "fissionWidth" [] mt = 102 -> "captureWidth" [] OTHER -> "width (MT=" \o ToString(mt) \o ")"
Group(ch, wd, pairs) ==
    LET n == ch.n[4]
        m == 6 * ((n \div 6) + 1) IN
    [j |-> IF ch.c[1] < 0 THEN -ch.c[1] ELSE ch.c[1],
     par |-> IF ch.c[1] > 0 \/ (ch.c[1] = 0 /\ ch.c[2] = 8) THEN "+" ELSE "-",
     ch |-> [c \in 1..n |-> LET v == Row(ch.v, 6, c) IN <<v[1] \div 8>> \o Tail(v)],
     cols |-> <<"energy">> \o [c \in 1..n |-> WidthName(pairs[ch.v[6 * (c - 1) + 1] \div 8].mt)],
     rows |-> [e \in 1..wd.n[2] |-> SubSeq(wd.v, (m * (e - 1)) + 1, (m * (e - 1)) + n + 1)]]
RMatrix(recs, i) ==
    LET b == Base(recs, i)
        pp == recs[b + 1]
        pairs == [p \in 1..(Len(pp.v) \div 12) |-> Pair(Row(pp.v, 12, p))] IN
    [k |-> "rml", lo |-> recs[i].c[1], hi |-> recs[i].c[2], ifg |-> recs[b].n[1], krm |-> recs[b].n[2], pairs |-> pairs,
     groups |-> [g \in 1..recs[b].n[3] |-> Group(recs[b + (2 * g)], recs[b + (2 * g) + 1], pairs)]]

\* unresolved: rows of l, J, spacing, degrees of freedom of the neutron width, neutron,
\* capture and fission width; with energies (case C) l, J, E, spacing, competitive, ...
Unresolved(recs, i, k) ==
    LET b == Base(recs, i)
        nls == IF k = "urb" THEN recs[b].n[4] ELSE recs[b].n[3]
        gs == IF k = "ura" THEN <<>> ELSE Groups(recs, b + 1, nls)
        l(g) == recs[gs[g]].n[1]
        RowsA(r) == [j \in 1..r.n[4] |-> LET v == Row(r.v, 6, j) IN <<r.n[1], v[2], v[1], v[3], v[4], v[5], 0>>]
        RowB(g, r, e) == <<l(g), r.v[2], r.v[1], r.v[3], r.v[4], r.v[5], r.v[6 + e]>>
        RowsC(g, r) == [e \in 1..r.n[4] |-> LET v == Row(r.v, 6, e + 1) IN <<l(g), r.c[1], v[1], v[2], v[3], v[4], v[5], v[6]>>]
        lists(g) == [m \in 1..recs[gs[g]].n[3] |-> recs[gs[g] + m]]
        Tables == CASE k = "ura" -> <<Flat([j \in 1..nls |-> RowsA(recs[b + j])])>>
                    [] k = "urb" -> [e \in DOMAIN recs[b].v |-> Flat([g \in 1..nls |-> LET x == lists(g) IN [m \in DOMAIN x |-> RowB(g, x[m], e)]])]
                    [] OTHER -> <<Flat([g \in 1..nls |-> LET x == lists(g) IN Flat([m \in DOMAIN x |-> RowsC(g, x[m])])])>> IN
    [k |-> k, lo |-> recs[i].c[1], hi |-> recs[i].c[2], spin |-> recs[b].c[1], bg |-> recs[b].n[1] = 0,
     scat |-> IF Nro(recs, i) = 0 THEN Const(recs[b].c[2]) ELSE Tab(recs[i + 1]),
     es |-> IF k = "urb" THEN recs[b].v ELSE <<>>, tables |-> Tables]

Range2(recs, i, lfw, awr) ==
    LET k == Kind(recs, i, lfw) IN
    CASE k = "radius" -> [k |-> k, lo |-> recs[i].c[1], hi |-> recs[i].c[2], spin |-> recs[i + 1].c[1], ls |-> <<0>>,
                          chan |-> <<Mass(awr)>>, scat |-> <<Const(recs[i + 1].c[2])>>]
      [] k \in {"slbw", "mlbw", "rm"} -> Resolved(recs, i, k)
      [] k = "rml" -> RMatrix(recs, i)
      [] OTHER -> Unresolved(recs, i, k)

(***************************************************************************)
(* Reading the section: isotope by isotope, range by range                 *)
(***************************************************************************)
ReadStart(recs) == [i |-> 2, iso |-> recs[1].n[3], left |-> 0, lfw |-> 0, out |-> <<>>]
ReadDone(s) == s.iso = 0 /\ s.left = 0
ReadStep(recs, s, awr) ==
    IF s.left = 0 THEN [s EXCEPT !.i = @ + 1, !.iso = @ - 1, !.lfw = recs[s.i].n[2], !.left = recs[s.i].n[3]]
    ELSE [s EXCEPT !.i = @ + RangeLen(recs, s.i, s.lfw), !.left = @ - 1, !.out = Append(@, Range2(recs, s.i, s.lfw, awr))]
RECURSIVE ReadAll(_, _, _)
ReadAll(recs, s, awr) == IF ReadDone(s) THEN s ELSE ReadAll(recs, ReadStep(recs, s, awr), awr)
Ranges(recs, awr) == ReadAll(recs, ReadStart(recs), awr).out
Unres(r) == r.k \in {"ura", "urb", "urc"}

(***************************************************************************)
(* File 32: one range.  res is the range of file 2 it belongs to.          *)
(* Uncertain are the energy and the widths: BW neutron, capture, fission,  *)
(* competitive; Reich-Moore neutron, capture, first and second fission.    *)
(* Covariances are exact numerators; the denominator is Den.               *)
(***************************************************************************)
Lcomp(recs, i) == recs[Base(recs, i)].n[2]
Den(recs, i) == CASE Lcomp(recs, i) = 2 -> 128 * (10 ^ recs[Base(recs, i) + 2].n[1]) [] OTHER -> 8
CovLen(recs, i) ==
    LET b == Base(recs, i)
        h == b + 1 - i IN
    CASE Lcomp(recs, i) = 1 -> h + 1 + recs[b + 1].n[3]
      [] Lcomp(recs, i) = 2 -> h + 2
      [] OTHER -> h + recs[b].n[3]
\* what file 32 says of the resonances: six numbers each
CovRows(recs, i) ==
    LET b == Base(recs, i) IN
    CASE Lcomp(recs, i) = 1 -> Flat([m \in 1..recs[b + 1].n[3] |-> LET r == recs[b + 1 + m] IN [j \in 1..r.n[4] |-> Row(r.v, 6, j)]])
      [] Lcomp(recs, i) = 2 -> [j \in 1..recs[b + 1].n[4] |-> SubSeq(recs[b + 1].v, (12 * (j - 1)) + 1, (12 * (j - 1)) + 6)]
      [] OTHER -> Flat([m \in 1..recs[b].n[3] |-> LET r == recs[b + m] IN [j \in 1..r.n[4] |-> SubSeq(r.v, (18 * (j - 1)) + 1, (18 * (j - 1)) + 6)]])
\* the same resonance in file 2
Twin(res, e) == CHOOSE m \in DOMAIN res.rows : res.rows[m][1] = e
CovParams(recs, i, res) == LET rs == CovRows(recs, i) IN
    [j \in DOMAIN rs |-> LET v == rs[j]
                             t == res.rows[Twin(res, v[1])] IN
        IF res.k = "rm" THEN RmRow(v, t[2]) ELSE <<v[1], t[2], v[2], v[3], v[4], v[5], v[6], t[8]>>]

\* upper triangle of n rows, row after row
TriAt(n, a, b) == (((a - 1) * n) - (((a - 1) * (a - 2)) \div 2)) + (b - a) + 1
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a < b THEN b ELSE a
\* blocks of resonances that vary together, apart from the others
Blocks(recs, i) == LET b == Base(recs, i) IN [m \in 1..recs[b + 1].n[3] |-> recs[b + 1 + m]]
BlockDim(r) == r.n[1] * r.n[4]
RECURSIVE BlockCov(_, _, _)
BlockCov(bs, a, b) ==
    LET d == BlockDim(bs[1]) IN
    IF a > d /\ b > d THEN BlockCov(Tail(bs), a - d, b - d)
    ELSE IF a > d \/ b > d THEN 0
    ELSE bs[1].v[(6 * bs[1].n[4]) + TriAt(d, Lo(a, b), Hi(a, b))]
\* compact: uncertainties and correlations with few digits
Elem(x) == IF x > 0 THEN (2 * x) + 1 ELSE IF x < 0 THEN (2 * x) - 1 ELSE 0
CorrAt(r, a, b) ==
    IF a = b THEN 2 * (10 ^ r.n[1])
    ELSE LET S == {m \in DOMAIN r.r : r.r[m][1] = Hi(a, b) /\ r.r[m][2] <= Lo(a, b) /\ Lo(a, b) < r.r[m][2] + Len(r.r[m]) - 2} IN
         IF S = {} THEN 0 ELSE LET m == CHOOSE x \in S : TRUE IN Elem(r.r[m][Lo(a, b) - r.r[m][2] + 3])
Uncertain(v, rm) ==
    LET u == IF rm THEN <<v[7], v[9], v[10], v[11], v[12]>> ELSE <<v[7], v[10], v[11], v[12]>> IN
    SelectSeq(u, LAMBDA x : x # 0)
Uncs(recs, i, rm) == LET r == recs[Base(recs, i) + 1] IN Flat([j \in 1..r.n[4] |-> Uncertain(Row(r.v, 12, j), rm)])
\* compatible: DE2, DN2, DNDG, DG2, DNDF, DGDF, DF2 of each resonance
Compat == <<<<1, 0, 0, 0>>, <<0, 2, 3, 5>>, <<0, 3, 4, 6>>, <<0, 5, 6, 7>>>>
CompatRow(recs, i, j) == LET b == Base(recs, i)
                             all == Flat([m \in 1..recs[b].n[3] |-> recs[b + m].v]) IN Row(all, 18, j)
Mpar(recs, i, rm) ==
    CASE Lcomp(recs, i) = 1 -> recs[Base(recs, i) + 2].n[1]
      [] Lcomp(recs, i) = 2 -> Len(Uncs(recs, i, rm)) \div recs[Base(recs, i) + 1].n[4]
      [] OTHER -> 4
CovDim(recs, i, rm) == Mpar(recs, i, rm) * Len(CovRows(recs, i))
Cov(recs, i, rm) ==
    LET n == CovDim(recs, i, rm)
        L == Lcomp(recs, i)
        B == IF L = 1 THEN Blocks(recs, i) ELSE <<>>
        u == IF L = 2 THEN Uncs(recs, i, rm) ELSE <<>>
        at(a, b) == CASE L = 1 -> BlockCov(B, a, b)
                      [] L = 2 -> u[a] * u[b] * CorrAt(recs[Base(recs, i) + 2], a, b)
                      [] OTHER -> LET ra == (a - 1) \div 4
                                      rb == (b - 1) \div 4
                                      k == Compat[((a - 1) % 4) + 1][((b - 1) % 4) + 1] IN
                                  IF ra # rb \/ k = 0 THEN 0 ELSE CompatRow(recs, i, ra + 1)[6 + k] IN
    [a \in 1..n |-> [b \in 1..n |-> at(a, b)]]
CovRange(recs, i, res) == [lo |-> recs[i].c[1], hi |-> recs[i].c[2], k |-> res.k, mpar |-> Mpar(recs, i, res.k = "rm"), lcomp |-> Lcomp(recs, i),
                           rows |-> CovParams(recs, i, res), cov |-> Cov(recs, i, res.k = "rm"), den |-> Den(recs, i)]

\* unresolved ranges are passed by; the others belong to the ranges of file 2 in turn
CovStart(recs) == [i |-> 2, iso |-> recs[1].n[3], left |-> 0, nth |-> 0, out |-> <<>>]
CovStep(recs, s, f2) ==
    IF s.left = 0 THEN [s EXCEPT !.i = @ + 1, !.iso = @ - 1, !.left = recs[s.i].n[3]]
    ELSE IF Lru(recs, s.i) = 2 THEN [s EXCEPT !.i = Len(recs) + 1, !.left = @ - 1, !.nth = @ + 1]
    ELSE [s EXCEPT !.i = @ + CovLen(recs, s.i), !.left = @ - 1, !.nth = @ + 1, !.out = Append(@, CovRange(recs, s.i, f2[s.nth + 1]))]
RECURSIVE CovAll(_, _, _)
CovAll(recs, s, f2) == IF ReadDone(s) THEN s ELSE CovAll(recs, CovStep(recs, s, f2), f2)
CovRanges(recs, f2) == CovAll(recs, CovStart(recs), f2).out

(***************************************************************************)
(* Choosing resonances, and sampling them                                  *)
(***************************************************************************)
\* the place of a parameter in the rows
Place(k, name) ==
    CASE name = "energy" -> 1 [] name = "L" -> 2 [] name = "J" -> 3
      [] k = "rm" -> (CASE name = "neutronWidth" -> 4 [] name = "captureWidth" -> 5 [] name = "fissionWidthA" -> 6 [] OTHER -> 7)
      [] OTHER -> (CASE name = "totalWidth" -> 4 [] name = "neutronWidth" -> 5 [] name = "captureWidth" -> 6 [] name = "fissionWidth" -> 7 [] OTHER -> 8)
\* the uncertain parameters of one resonance, in the order of the covariances
Varied(k, m) == SubSeq(IF k = "rm" THEN <<1, 4, 5, 6, 7>> ELSE <<1, 5, 6, 7, 8>>, 1, m)
RECURSIVE Kept(_, _, _, _, _)
Kept(rows, p, lo, hi, j) == IF j > Len(rows) THEN <<>>
    ELSE (IF rows[j][p] >= lo /\ rows[j][p] <= hi THEN <<j>> ELSE <<>>) \o Kept(rows, p, lo, hi, j + 1)
Subset(c, name, lo, hi) ==
    LET ks == Kept(c.rows, Place(c.k, name), lo, hi, 1)
        m == c.mpar
        ix == Flat([j \in DOMAIN ks |-> [q \in 1..m |-> ((ks[j] - 1) * m) + q]]) IN
    [c EXCEPT !.rows = [j \in DOMAIN ks |-> c.rows[ks[j]]], !.cov = [a \in DOMAIN ix |-> [b \in DOMAIN ix |-> c.cov[ix[a]][ix[b]]]]]
\* the mean of the a-th sampled parameter
MeanOf(c, a) == c.rows[((a - 1) \div c.mpar) + 1][Varied(c.k, c.mpar)[((a - 1) % c.mpar) + 1]]
================================================================================

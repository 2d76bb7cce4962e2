------------------------------- MODULE EndfData -------------------------------
(* What the sections of an ENDF evaluation say about a nuclide: cross sections, *)
(* the products of each reaction, their yields and distributions.               *)
(* A tape is a sequence of sections [mf, mt, recs]; a record is                 *)
(* [c, n, r, v]: two reals, the four integers, the interpolation regions and    *)
(* the values (a list, or x1, y1, x2, y2 ...).  Reals are in eighths; what is   *)
(* read from them is in 1024ths.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

U == 1024
S == 128
Map(f(_), s) == [i \in DOMAIN s |-> f(s[i])]
Sc(s) == [i \in DOMAIN s |-> S * s[i]]
Range2(s) == {s[i] : i \in DOMAIN s}
\* TLC evaluates the argument of a definition anew each time: <<e>> holds it
Has(T, mf, mt) == \E i \in DOMAIN T : T[i].mf = mf /\ T[i].mt = mt
Sec(T, mf, mt) == (CHOOSE s \in Range2(T) : s.mf = mf /\ s.mt = mt).recs

(***************************************************************************)
(* Records                                                                 *)
(***************************************************************************)
Xs(r) == [i \in 1..(Len(r.v) \div 2) |-> r.v[2 * i - 1]]
Ys(r) == [i \in 1..(Len(r.v) \div 2) |-> r.v[2 * i]]
\* every k-th value of a list of rows of n
Col(v, n, k) == [i \in 1..(Len(v) \div n) |-> v[(i - 1) * n + k]]
Row(v, n, i) == SubSeq(v, (i - 1) * n + 1, i * n)
Tab(r) == [b |-> [i \in DOMAIN r.r |-> r.r[i][1]], i |-> [i \in DOMAIN r.r |-> r.r[i][2]], x |-> Sc(Xs(r)), y |-> Sc(Ys(r))]
Regions(r) == [b |-> [i \in DOMAIN r.r |-> r.r[i][1]], i |-> [i \in DOMAIN r.r |-> r.r[i][2]]]

\* a table at p eighths, histogram and linear laws; nothing outside
At(r, p) ==
    LET n == Len(r.v) \div 2 IN
    IF p < r.v[1] \/ p > r.v[2 * n - 1] THEN 0
    ELSE IF p = r.v[2 * n - 1] THEN S * r.v[2 * n]
    ELSE LET i == CHOOSE j \in 1..(n - 1) : r.v[2 * j - 1] <= p /\ p < r.v[2 * j + 1]
             k == CHOOSE m \in DOMAIN r.r : i < r.r[m][1] /\ (m = 1 \/ i >= r.r[m - 1][1])
             x == r.v[2 * i - 1]
             y == r.v[2 * i] IN
         IF r.r[k][2] = 1 THEN S * y
         ELSE S * y + (S * (p - x) * (r.v[2 * i + 2] - y)) \div (r.v[2 * i + 1] - x)
\* a polynomial with at most two coefficients
PolyAt(c, p) == S * c[1] + (IF Len(c) > 1 THEN (S * c[2] * p) \div 8 ELSE 0)

(***************************************************************************)
(* Yields: a table, a polynomial, a product, a quotient, one               *)
(***************************************************************************)
One == [k |-> "one"]
YTab(r) == [k |-> "tab", t |-> r]
YPoly(c) == [k |-> "poly", c |-> c]
YMul(a, t) == [k |-> "mul", a |-> a, t |-> t]
YRatio(t, x) == [k |-> "ratio", t |-> t, x |-> x]
NuAt(y, p) == IF y.k = "tab" THEN At(y.t, p) ELSE PolyAt(y.c, p)
Grid(r) == Range2(Xs(r))
Abs0(x) == IF x < 0 THEN -x ELSE x
\* is got (1024ths) the yield at p?
YieldOk(y, p, got) ==
    CASE y.k = "one" -> got = U
      [] y.k \in {"tab", "poly"} -> got = NuAt(y, p)
      [] y.k = "mul" ->
            \* the group's share is known up to the end of both tables
            LET w == NuAt(y.a, p) * At(y.t, p) IN
            Abs0(got * U - w) <= 2 * U
      [] y.k = "ratio" ->
            \* on the points of either table
            IF p \notin Grid(y.t) \cup Grid(y.x) THEN TRUE
            ELSE LET n == At(y.x, p) IN IF n <= 0 THEN got = 0 ELSE Abs0(got * n - (At(y.t, p) * U)) <= n
\* where a product of tables is known
YieldAt(y, p) == IF y.k # "mul" THEN TRUE
                 ELSE /\ p >= y.t.v[1] /\ p <= y.t.v[Len(y.t.v) - 1]
                      /\ y.a.k = "tab" => p >= y.a.t.v[1] /\ p <= y.a.t.v[Len(y.a.t.v) - 1]

(***************************************************************************)
(* Energy distributions of file 5: read from record i, the subsection's    *)
(* first (its table is the probability with which the law applies)         *)
(***************************************************************************)
Lf(recs, i) == recs[i].n[2]
LawLen(recs, i) == CASE Lf(recs, i) = 1 -> 2 + recs[i + 1].n[4]
                     [] Lf(recs, i) \in {5, 11} -> 3
                     [] OTHER -> 2
EnergyLaw(recs, i) ==
    LET u == S * recs[i].c[1] IN
    CASE Lf(recs, i) = 1 -> [k |-> "arb", e |-> [j \in 1..recs[i + 1].n[4] |-> S * recs[i + 1 + j].c[2]], pdf |-> [j \in 1..recs[i + 1].n[4] |-> Tab(recs[i + 1 + j])]]
      [] Lf(recs, i) = 5 -> [k |-> "gen", theta |-> Tab(recs[i + 1]), g |-> Tab(recs[i + 2]), u |-> u]
      [] Lf(recs, i) = 7 -> [k |-> "max", theta |-> Tab(recs[i + 1]), u |-> u]
      [] Lf(recs, i) = 9 -> [k |-> "eva", theta |-> Tab(recs[i + 1]), u |-> u]
      [] Lf(recs, i) = 11 -> [k |-> "watt", a |-> Tab(recs[i + 1]), b |-> Tab(recs[i + 2]), u |-> u]
      [] OTHER -> [k |-> "mad", efl |-> S * recs[i + 1].c[1], efh |-> S * recs[i + 1].c[2], tm |-> Tab(recs[i + 1])]
RECURSIVE Starts5(_, _, _)
Starts5(recs, i, n) == IF n = 0 THEN <<i>> ELSE <<i>> \o Starts5(recs, i + LawLen(recs, i), n - 1)
File5(recs) == LET st == Starts5(recs, 2, recs[1].n[3]) IN
    [i \in 1..recs[1].n[3] |-> [app |-> recs[st[i]], law |-> EnergyLaw(recs, st[i])]]

(***************************************************************************)
(* Angular distributions of file 4                                         *)
(***************************************************************************)
MuLeg(r) == [k |-> "leg", c |-> <<U>> \o Sc(r.v)]
MuTab(r) == [k |-> "tab", i |-> r.r[1][2], x |-> Sc(Xs(r)), p |-> Sc(Ys(r))]
File4(recs, emax) ==
    LET ltt == recs[1].n[2]
        b == IF recs[1].n[1] > 0 THEN 4 ELSE 3     \* past an energy transformation matrix
        n == recs[b].n[4]
        part(at, m, leg) == [j \in 1..m |-> IF leg THEN MuLeg(recs[at + j]) ELSE MuTab(recs[at + j])]
        es(at, m) == [j \in 1..m |-> S * recs[at + j].c[2]] IN
    CASE recs[2].n[1] = 1 -> [e |-> <<0, S * emax>>, mu |-> <<[k |-> "iso"], [k |-> "iso"]>>]
      [] ltt = 3 -> LET m == recs[b + n + 1].n[4] IN
            [e |-> es(b, n) \o es(b + n + 1, m), mu |-> part(b, n, TRUE) \o part(b + n + 1, m, FALSE)]
      [] OTHER -> [e |-> es(b, n), mu |-> part(b, n, ltt = 1)]
Len4(recs) == LET b == IF recs[1].n[1] > 0 THEN 4 ELSE 3 IN
    IF recs[2].n[1] = 1 THEN b - 1
    ELSE IF recs[1].n[2] = 3 THEN b + recs[b].n[4] + 1 + recs[b + recs[b].n[4] + 1].n[4] ELSE b + recs[b].n[4]

(***************************************************************************)
(* Products of file 6                                                      *)
(***************************************************************************)
Symbols == (1 :> "H") @@ (2 :> "He") @@ (3 :> "Li") @@ (6 :> "C") @@ (26 :> "Fe") @@ (27 :> "Co") @@ (92 :> "U") @@ (93 :> "Np") @@ (95 :> "Am")
Nuclide(z, a) == Symbols[z] \o ToString(a)
Particle(za) == IF za = 0 THEN "photon" ELSE IF za = 1 THEN "neutron" ELSE Nuclide(za \div 1000, za % 1000)
Unc(e, a) == [k |-> "unc", e |-> e, a |-> a]
None == [k |-> "none"]

Law(recs, i) == recs[i].n[2]
RECURSIVE LabLen(_, _, _)
LabLen(recs, i, n) == IF n = 0 THEN 0 ELSE LET m == recs[i].n[4] IN 1 + m + LabLen(recs, i + 1 + m, n - 1)
RECURSIVE LabAt(_, _, _)
LabAt(recs, i, n) == IF n = 0 THEN <<>> ELSE <<i>> \o LabAt(recs, i + 1 + recs[i].n[4], n - 1)
ProductLen(recs, i) ==
    CASE Law(recs, i) \in {0, 3, 4} -> 1
      [] Law(recs, i) \in {1, 2, 5} -> 2 + recs[i + 1].n[4]
      [] Law(recs, i) = 6 -> 2
      [] Law(recs, i) = 7 -> 2 + LabLen(recs, i + 2, recs[i + 1].n[4])
Dist6(recs, i) ==
    LET h == recs[i + 1]
        ne == h.n[4]
        at(j) == recs[i + 1 + j]
        es == [j \in 1..ne |-> S * at(j).c[2]] IN
    CASE Law(recs, i) = 1 /\ h.n[1] = 1 ->
            <<[k |-> "corr", r |-> Regions(h), e |-> es, int |-> h.n[2],
               x |-> [j \in 1..ne |-> Sc(Col(at(j).v, at(j).n[2] + 2, 1))], p |-> [j \in 1..ne |-> Sc(Col(at(j).v, at(j).n[2] + 2, 2))],
               mu |-> [j \in 1..ne |-> [m \in 1..at(j).n[4] |-> Sc(SubSeq(Row(at(j).v, at(j).n[2] + 2, m), 2, at(j).n[2] + 2))]]]>>
      [] Law(recs, i) = 1 /\ h.n[1] = 2 ->
            <<[k |-> "km", r |-> Regions(h), e |-> es, int |-> h.n[2],
               x |-> [j \in 1..ne |-> Sc(Col(at(j).v, at(j).n[2] + 2, 1))], p |-> [j \in 1..ne |-> Sc(Col(at(j).v, at(j).n[2] + 2, 2))],
               pre |-> [j \in 1..ne |-> Sc(Col(at(j).v, at(j).n[2] + 2, 3))],
               \* without slopes they follow from systematics
               slope |-> [j \in 1..ne |-> IF at(j).n[2] = 2 THEN Sc(Col(at(j).v, 4, 4)) ELSE <<>>]]>>
      [] Law(recs, i) = 2 ->
            <<Unc(None, [k |-> "ang", e |-> es, mu |-> [j \in 1..ne |->
               IF at(j).n[1] = 0 THEN [k |-> "leg", c |-> <<U>> \o Sc(at(j).v)]
               ELSE [k |-> "tab", i |-> IF at(j).n[1] = 12 THEN 2 ELSE 4, x |-> Sc(Col(at(j).v, 2, 1)), p |-> Sc(Col(at(j).v, 2, 2))]]])>>
      [] Law(recs, i) = 3 -> <<Unc(None, None)>>
      [] Law(recs, i) = 6 -> <<[k |-> "nbody", m |-> S * h.c[1], n |-> h.n[4]]>>
      [] Law(recs, i) = 7 ->
            LET st == LabAt(recs, i + 2, ne) IN
            <<[k |-> "lab", r |-> Regions(h), e |-> [j \in 1..ne |-> S * recs[st[j]].c[2]],
               mu |-> [j \in 1..ne |-> [m \in 1..recs[st[j]].n[4] |-> S * recs[st[j] + m].c[2]]],
               out |-> [j \in 1..ne |-> [m \in 1..recs[st[j]].n[4] |-> [x |-> Sc(Xs(recs[st[j] + m])), p |-> Sc(Ys(recs[st[j] + m]))]]]]>>
      [] OTHER -> <<>>
RECURSIVE Starts6(_, _, _)
Starts6(recs, i, n) == IF n = 0 THEN <<i>> ELSE <<i>> \o Starts6(recs, i + ProductLen(recs, i), n - 1)
Product(part, y, dist) == [part |-> part, mode |-> "prompt", rate |-> 0, y |-> y, app |-> <<>>, dist |-> dist]
File6(recs) == LET st == Starts6(recs, 2, recs[1].n[3]) IN
    [i \in 1..recs[1].n[3] |-> Product(Particle(recs[st[i]].c[1] \div 8), YTab(recs[st[i]]), Dist6(recs, st[i]))]

(***************************************************************************)
(* Fission neutrons: files 1 and 5                                         *)
(***************************************************************************)
Fissions == {18, 19, 20, 21, 38}
\* head record, then a list of coefficients or a table (i: its place)
Nu(recs, i) == IF recs[1].n[2] = 1 THEN YPoly(recs[i].v) ELSE YTab(recs[i])
Neutron(mode, y) == [Product("neutron", y, <<>>) EXCEPT !.mode = mode]
Groups(T) == IF Has(T, 1, 455) THEN Sec(T, 1, 455)[2].v ELSE <<>>
Delayed(T) ==
    IF ~Has(T, 1, 455) THEN <<>> ELSE
    LET recs == Sec(T, 1, 455)
        all == Nu(recs, 3)
        f5 == IF Has(T, 5, 455) THEN File5(Sec(T, 5, 455)) ELSE <<>> IN
    [g \in DOMAIN recs[2].v |->
        [Neutron("delayed", IF f5 = <<>> THEN all ELSE YMul(all, f5[g].app)) EXCEPT
            !.rate = S * recs[2].v[g], !.dist = IF f5 = <<>> THEN <<>> ELSE <<Unc(f5[g].law, None)>>]]
FissionNeutrons(T) ==
    (IF Has(T, 1, 456) THEN <<Neutron("prompt", Nu(Sec(T, 1, 456), 2))>> ELSE <<Neutron("total", Nu(Sec(T, 1, 452), 2))>>) \o Delayed(T)
Derived(T) == IF Has(T, 1, 456) /\ Has(T, 1, 452) THEN <<Neutron("total", Nu(Sec(T, 1, 452), 2))>> ELSE <<>>

(***************************************************************************)
(* Radioactive products (8, 9, 10) and photons (12, 13)                    *)
(***************************************************************************)
StateName(izap, lfs) == Nuclide(izap \div 1000, izap % 1000) \o (IF lfs > 0 THEN "_e" \o ToString(lfs) ELSE "")
Activation(T, mt) ==
    LET of(mf) == IF ~Has(T, mf, mt) \/ ~\E i \in 2..Len(Sec(T, 8, mt)) : Sec(T, 8, mt)[i].n[1] = mf THEN <<>>
                  ELSE [i \in 1..Sec(T, mf, mt)[1].n[3] |-> LET r == Sec(T, mf, mt)[i + 1] IN
                        Product(StateName(r.n[1], r.n[2]), IF mf = 9 THEN YTab(r) ELSE YRatio(r, Sec(T, 3, mt)[2]), <<>>)] IN
    IF ~Has(T, 8, mt) THEN <<>> ELSE of(9) \o of(10)
\* a state file 6 lists gets its yield here
RECURSIVE Merge(_, _)
Merge(ps, as) ==
    IF as = <<>> THEN ps ELSE
    LET H == {i \in DOMAIN ps : ps[i].part = as[1].part} IN
    Merge(IF H = {} THEN Append(ps, as[1]) ELSE [ps EXCEPT ![CHOOSE i \in H : \A j \in H : i <= j].y = as[1].y], Tail(as))

Photons(T, mt, awr) ==
    LET of(mf) ==
            LET recs == Sec(T, mf, mt)
                nk == recs[1].n[3]
                b == IF nk > 1 THEN 2 ELSE 1 IN
            [i \in 1..nk |-> LET r == recs[b + i] IN
                Product("photon", IF mf = 12 THEN YTab(r) ELSE YRatio(r, Sec(T, 3, mt)[2]),
                        <<Unc(IF r.n[2] = 2 THEN [k |-> "line", flag |-> r.n[1], e |-> S * r.c[1], awr |-> S * awr] ELSE None, None)>>)] IN
    IF Has(T, 12, mt) THEN (IF Sec(T, 12, mt)[1].n[1] = 1 THEN of(12) ELSE <<>>) ELSE IF Has(T, 13, mt) THEN of(13) ELSE <<>>

(***************************************************************************)
(* A reaction                                                              *)
(***************************************************************************)
Emitted(T, mt, awr, emax) ==        \* applicabilities and distributions of the neutron in files 4 and 5
    LET ang == IF Has(T, 4, mt) THEN [k |-> "ang"] @@ File4(Sec(T, 4, mt), emax) ELSE None
        f5 == IF Has(T, 5, mt) THEN File5(Sec(T, 5, mt)) ELSE <<>>
        q == Sec(T, 3, mt)[2].c[2] IN
    [app |-> [i \in DOMAIN f5 |-> f5[i].app],
     dist |-> IF f5 # <<>> THEN [i \in DOMAIN f5 |-> Unc(f5[i].law, ang)]
              ELSE IF mt = 2 THEN <<Unc(None, ang)>>
              ELSE IF mt \in 51..90 THEN <<Unc([k |-> "level", a |-> awr \div 8, q |-> Abs0(q) * S], ang)>>
              ELSE <<>>]
Give(p, d) == [p EXCEPT !.app = d.app, !.dist = d.dist]
RECURSIVE Add6(_, _, _)
Add6(ps, fs, fission) ==
    IF fs = <<>> THEN ps
    ELSE IF fission /\ fs[1].part = "neutron" THEN Add6([ps EXCEPT ![1] = Give(@, fs[1])], Tail(fs), fission)
    ELSE Add6(Append(ps, fs[1]), Tail(fs), fission)
RECURSIVE Products(_, _, _, _)
Products(T, mt, awr, emax) ==
    LET fis == mt \in Fissions
        p0 == IF fis THEN FissionNeutrons(T) ELSE <<>>
        p1 == IF Has(T, 6, mt) THEN Add6(p0, File6(Sec(T, 6, mt)), fis)
              ELSE IF Has(T, 4, mt) \/ Has(T, 5, mt)
              THEN LET d == Emitted(T, mt, awr, emax) IN
                   IF fis THEN [p0 EXCEPT ![1] = Give(@, d)] ELSE Append(p0, Give(Product("neutron", One, <<>>), d))
              ELSE p0
        \* partial fission emits like fission unless it says otherwise
        p2 == IF fis /\ mt # 18 /\ ~Has(T, 5, mt) /\ ~Has(T, 6, mt) /\ Has(T, 3, 18)
              THEN [p1 EXCEPT ![1] = Give(@, Products(T, 18, awr, emax)[1])] ELSE p1 IN
    Merge(p2, Activation(T, mt)) \o Photons(T, mt, awr)
Reaction(T, mt, awr, emax) ==
    [q |-> S * Sec(T, 3, mt)[2].c[2], xs |-> Tab(Sec(T, 3, mt)[2]),
     prods |-> Products(T, mt, awr, emax), derived |-> IF mt \in Fissions THEN Derived(T) ELSE <<>>]
Reactions(T) == [i \in 1..Cardinality({j \in DOMAIN T : T[j].mf = 3}) |->
                 T[CHOOSE j \in DOMAIN T : T[j].mf = 3 /\ Cardinality({m \in 1..j : T[m].mf = 3}) = i].mt]
=================================================================================

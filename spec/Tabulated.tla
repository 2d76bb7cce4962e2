------------------------------ MODULE Tabulated ------------------------------
(* ENDF TAB1 functions: points, interpolation regions and their laws.         *)
(* A table is [x, a, y, b, bp, law]: x are abscissae in linear ticks, a their *)
(* logarithms (base 2, <<>> if the table has none), y the ordinates, b their  *)
(* logarithms; bp the last point of each region, law the law of each region.  *)
(* Points are [k |-> "lin", v |-> ticks], [k |-> "log", v |-> 4 log2 x] or    *)
(* [k |-> "out"] (outside by a hair).  Values are in millionths.              *)
EXTENDS Integers, Sequences, FiniteSets

M == 1000000
N(t) == Len(t.x)
\* interval i lies between the points i and i+1
Region(t, i) == CHOOSE k \in DOMAIN t.bp : i < t.bp[k] /\ (k = 1 \/ i >= t.bp[k - 1])
Law(t, i) == t.law[Region(t, i)]

Coord(t, p, i) == IF p.k = "log" THEN 4 * t.a[i] ELSE t.x[i]
Below(t, p) == p.v < Coord(t, p, 1)
Above(t, p) == p.v > Coord(t, p, N(t))
Outside(t, p) == p.k = "out" \/ Below(t, p) \/ Above(t, p)
OnPoint(t, p) == ~Outside(t, p) /\ \E i \in 1..N(t) : Coord(t, p, i) = p.v
\* two points with one abscissa are a step: the value at the step is the upper one
PointIx(t, p) == CHOOSE i \in 1..N(t) : Coord(t, p, i) = p.v /\ (i = N(t) \/ Coord(t, p, i + 1) # p.v)
Interval(t, p) == CHOOSE i \in 1..(N(t) - 1) : Coord(t, p, i) <= p.v /\ p.v < Coord(t, p, i + 1)

\* the law can be evaluated exactly at this kind of point
Exact(t, p) == Outside(t, p) \/ OnPoint(t, p) \/ LET w == Law(t, Interval(t, p)) IN
    \/ w = 1
    \/ w \in {2, 4} /\ p.k = "lin"
    \/ w \in {3, 5} /\ p.k = "log"
Logarithmic(t, p) == ~Outside(t, p) /\ ~OnPoint(t, p) /\ Law(t, Interval(t, p)) \in {4, 5}

\* lo + (share of the interval) * (hi - lo), in millionths
Blend(n, d, lo, hi) == IF (4 * n) % d = 0 THEN lo * M + ((4 * n) \div d) * (hi - lo) * (M \div 4)
                       ELSE lo * M + ((n * (hi - lo) * (M \div 20)) \div d) * 20
Share(t, p, f) == LET i == Interval(t, p) IN
    Blend(p.v - Coord(t, p, i), Coord(t, p, i + 1) - Coord(t, p, i), f[i], f[i + 1])

\* the value (or, if Logarithmic, its base-2 logarithm) in millionths
Value(t, p) ==
    IF Outside(t, p) THEN 0
    ELSE IF OnPoint(t, p) THEN t.y[PointIx(t, p)] * M
    ELSE CASE Law(t, Interval(t, p)) = 1 -> t.y[Interval(t, p)] * M
           [] Law(t, Interval(t, p)) \in {2, 3} -> Share(t, p, t.y)
           [] OTHER -> Share(t, p, t.b)

\* 1/ln 2 and ln 2 in millionths
ILN2 == 1442695
LN2 == 693147
\* X is the abscissa in units of 1 (the tables with logarithms have x = 2^a)
Piece(t, i) ==
    LET X == [j \in 1..N(t) |-> t.x[j] \div t.unit]
        dx == X[i + 1] - X[i]
        dy == t.y[i + 1] - t.y[i]
        w == Law(t, i) IN
    IF dx = 0 THEN 0
    ELSE IF w = 1 THEN t.y[i] * dx * M
    ELSE IF w = 2 THEN (t.y[i] + t.y[i + 1]) * dx * (M \div 2)
    ELSE LET da == t.a[i + 1] - t.a[i]
             db == t.b[i + 1] - t.b[i] IN
         CASE w = 3 -> t.y[i] * dx * M + dy * (X[i + 1] * M - (dx * ILN2) \div da)
           [] w = 4 -> IF db = 0 THEN t.y[i] * dx * M ELSE (dy * dx * ILN2) \div db
           [] w = 5 -> IF db + da = 0 THEN t.y[i] * X[i] * LN2 * da
                       ELSE ((X[i + 1] * t.y[i + 1] - X[i] * t.y[i]) * da * M) \div (db + da)

\* polynomials: coefficients lowest first, integer points
RECURSIVE Horner(_, _, _)
Horner(c, x, i) == IF i > Len(c) THEN 0 ELSE c[i] + x * Horner(c, x, i + 1)
Poly(c, x) == Horner(c, x, 1)

(***************************************************************************)
(* Integration as a process: one point at a time, the running integral.    *)
(***************************************************************************)
CONSTANTS Exps, YExps, MinPoints, MaxPoints, Laws
VARIABLES tb, pos, acc
tvars == <<tb, pos, acc>>

Incr(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
\* abscissae: increasing, possibly with steps in the inside of the range
Steps(s) == /\ s[1] < s[2] /\ s[Len(s) - 1] < s[Len(s)]
            /\ \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
            /\ \A i \in 1..(Len(s) - 2) : s[i] < s[i + 2]
Pow2 == [e \in 0..8 |-> CASE e = 0 -> 1 [] e = 1 -> 2 [] e = 2 -> 4 [] e = 3 -> 8 [] e = 4 -> 16 [] e = 5 -> 32 [] e = 6 -> 64 [] e = 7 -> 128 [] OTHER -> 256]
MkTable(a, b, bp, law) == [a |-> a, x |-> [i \in DOMAIN a |-> 16 * Pow2[a[i]]], b |-> b,
                           y |-> [i \in DOMAIN b |-> Pow2[b[i]]], bp |-> bp, law |-> law, unit |-> 16]
Breaks(n) == {s \in UNION {[1..k -> 2..n] : k \in 1..(n - 1)} : Incr(s) /\ s[Len(s)] = n}

TInit == /\ \E n \in MinPoints..MaxPoints : \E a \in {s \in [1..n -> Exps] : Steps(s)} : \E b \in [1..n -> YExps] :
              \E bp \in Breaks(n) : \E law \in [1..Len(bp) -> Laws] : tb = MkTable(a, b, bp, law)
         /\ pos = 1 /\ acc = <<0>>
Advance == /\ pos < N(tb)
           /\ acc' = Append(acc, acc[pos] + Piece(tb, pos))
           /\ pos' = pos + 1
           /\ UNCHANGED tb
TNext == Advance
TSpec == TInit /\ [][TNext]_tvars

EveryIntervalHasOneLaw == \A i \in 1..(N(tb) - 1) :
    Cardinality({k \in DOMAIN tb.bp : i < tb.bp[k] /\ (k = 1 \/ i >= tb.bp[k - 1])}) = 1
Pts == {[k |-> "lin", v |-> v] : v \in 1..(tb.x[N(tb)] + 9)} \cup {[k |-> "log", v |-> v] : v \in 0..(4 * tb.a[N(tb)] + 2)}
AtPointsTheOrdinate == pos = 1 => \A i \in 1..N(tb) : (i < N(tb) /\ tb.x[i] = tb.x[i + 1]) \/
    (Value(tb, [k |-> "lin", v |-> tb.x[i]]) = tb.y[i] * M /\ Value(tb, [k |-> "log", v |-> 4 * tb.a[i]]) = tb.y[i] * M)
\* a step has no width: the integral is continuous over it
StepsHaveNoArea == \A i \in 1..(pos - 1) : tb.x[i] = tb.x[i + 1] => acc[i + 1] = acc[i]
Between == pos = 1 => \A p \in Pts : Exact(tb, p) /\ ~Outside(tb, p) =>
    LET i == IF OnPoint(tb, p) THEN 0 ELSE Interval(tb, p)
        f == IF Logarithmic(tb, p) THEN tb.b ELSE tb.y IN
    i = 0 \/ LET lo == IF f[i] < f[i + 1] THEN f[i] ELSE f[i + 1]
                 hi == IF f[i] < f[i + 1] THEN f[i + 1] ELSE f[i] IN
             lo * M <= Value(tb, p) /\ Value(tb, p) <= hi * M
ZeroOutside == pos = 1 => \A p \in Pts : Outside(tb, p) => Value(tb, p) = 0
\* each piece of a positive function lies between its rectangles
IntegralBounded == \A i \in 1..(pos - 1) : LET d == acc[i + 1] - acc[i]
                                              dx == (tb.x[i + 1] - tb.x[i]) \div 16
                                              lo == IF tb.y[i] < tb.y[i + 1] THEN tb.y[i] ELSE tb.y[i + 1]
                                              hi == IF tb.y[i] < tb.y[i + 1] THEN tb.y[i + 1] ELSE tb.y[i] IN
    lo * dx * M - 100 <= d /\ d <= hi * dx * M + 100
\* the logarithmic laws are flatter than the linear one where the function is convex
LawsOrdered == \A i \in 1..(pos - 1) : Law(tb, i) = 4 =>
    2 * (acc[i + 1] - acc[i]) <= (tb.y[i] + tb.y[i + 1]) * ((tb.x[i + 1] - tb.x[i]) \div 16) * M + 200
===============================================================================

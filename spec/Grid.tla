---------------------------------- MODULE Grid ----------------------------------
(* Linearising a function and thinning a table.  The function is a table of       *)
(* integers on 0..N, straight between neighbours; points are twice their abscissa *)
(* (midpoints of neighbours are points too).  Tolerances are num/den.             *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
\* twice the value of the function at half p; f is a sequence, f[1] at 0
At(f, p) == IF p % 2 = 0 THEN 2 * f[(p \div 2) + 1] ELSE f[((p - 1) \div 2) + 1] + f[((p + 1) \div 2) + 1]

\* the straight line between lo and hi misses the function in the middle by more than the tolerance
Off(f, lo, hi, t) ==
    LET m == At(f, (lo + hi) \div 2)
        e == Abs(At(f, lo) + At(f, hi) - 2 * m) IN
    \* e / 2 over m: an error over a value of zero is too large, unless there is no error
    IF m = 0 THEN e # 0 ELSE e * t.den > t.num * 2 * Abs(m)
\* the points from lo (inclusive) to hi (exclusive)
RECURSIVE Between(_, _, _, _)
Between(f, lo, hi, t) == IF hi - lo > 1 /\ Off(f, lo, hi, t)
                         THEN Between(f, lo, (lo + hi) \div 2, t) \o Between(f, (lo + hi) \div 2, hi, t)
                         ELSE <<lo>>
RECURSIVE Linear(_, _, _, _)
Linear(f, init, t, i) == IF i = Len(init) THEN <<init[i]>> ELSE Between(f, init[i], init[i + 1], t) \o Linear(f, init, t, i + 1)
Linearized(f, init, t) == LET p == Linear(f, init, t, 1) IN [i \in DOMAIN p |-> <<p[i], At(f, p[i])>>]

\* thinning: point j, left out between the points a and b, is missed by more than the tolerance
Misses(xy, a, b, j, t) ==
    LET dx == xy[b][1] - xy[a][1]
        e == xy[a][2] * dx + (xy[b][2] - xy[a][2]) * (xy[j][1] - xy[a][1]) - xy[j][2] * dx IN
    \/ xy[j][2] = 0
    \/ Abs(e) * t.den > t.num * Abs(xy[j][2]) * Abs(dx)
\* a and b may be joined: nothing between them is missed
Joined(xy, a, b, t) == \A j \in (a + 1)..(b - 1) : ~Misses(xy, a, b, j, t)
\* from the point a on: the first b that may not be joined with a; b - 1 stays
RECURSIVE Kept(_, _, _)
Kept(xy, a, t) ==
    IF a = Len(xy) THEN <<a>>
    ELSE LET S == {b \in (a + 1)..Len(xy) : ~Joined(xy, a, b, t)} IN
         IF S = {} THEN <<a, Len(xy)>>
         ELSE <<a>> \o Kept(xy, (CHOOSE b \in S : \A c \in S : b <= c) - 1, t)
Thinned(xy, t) == LET k == Kept(xy, 1, t) IN [i \in DOMAIN k |-> xy[k[i]]]

(***************************************************************************)
CONSTANTS N, Values, Tolerances
VARIABLES f, init, tol
gvars == <<f, init, tol>>
GInit == /\ f \in [1..(N + 1) -> Values]
         /\ init \in {<<0, 2 * N>>, <<0, N, 2 * N>>, <<0, 2, 4, 2 * N>>, [i \in 1..(N + 1) |-> 2 * (i - 1)]}
         /\ tol \in Tolerances
GNext == FALSE /\ UNCHANGED gvars
GSpec == GInit /\ [][GNext]_gvars

Sub(s, r) == \A i \in DOMAIN s : \E j \in DOMAIN r : r[j] = s[i]
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i][1] < s[i + 1][1]
Lin == Linearized(f, init, tol)
\* all the points asked for are there, in order, and nowhere the line is off in the middle
LinearOk == /\ Increasing(Lin)
            /\ \A i \in DOMAIN init : \E j \in DOMAIN Lin : Lin[j] = <<init[i], At(f, init[i])>>
            /\ \A i \in 1..(Len(Lin) - 1) : Lin[i + 1][1] - Lin[i][1] > 1 => ~Off(f, Lin[i][1], Lin[i + 1][1], tol)
\* ends stay, no new points, and what left is near the line between its neighbours
ThinOk == LET r == Thinned(Lin, tol) IN
    /\ Increasing(r) /\ Sub(r, Lin) /\ r[1] = Lin[1] /\ r[Len(r)] = Lin[Len(Lin)]
    /\ \A i \in 1..(Len(r) - 1) : \A j \in DOMAIN Lin : r[i][1] < Lin[j][1] /\ Lin[j][1] < r[i + 1][1] =>
        LET a == CHOOSE k \in DOMAIN Lin : Lin[k] = r[i]
            b == CHOOSE k \in DOMAIN Lin : Lin[k] = r[i + 1] IN ~Misses(Lin, a, b, j, tol)
===============================================================================

------------------------------- MODULE Levels -------------------------------
(* Cross sections of resolved resonances in single-level and multi-level      *)
(* Breit-Wigner and Reich-Moore form, from the equations of appendix D of the *)
(* ENDF-6 manual, in numbers with twenty binary places (Fixed).               *)
(*                                                                            *)
(* Energies are in a unit of the evaluation's own.  Wave numbers and radii go  *)
(* together: kappa is the radius times the wave number at one unit, so that   *)
(* rho = kappa * sqrt(E).  Cross sections are in pi / k^2.  Spins are doubled. *)
EXTENDS Fixed, Sequences, FiniteSets, TLC

RECURSIVE SumF(_, _)
SumF(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumF(S \ {x}, f)
Sum(f) == LET g == TLCEval(f) IN SumF(DOMAIN g, g)
RECURSIVE Poly(_, _, _)     \* sum of c[i] y^(i-1)
Poly(c, y, i) == IF i > Len(c) THEN 0 ELSE c[i] + (IF i = Len(c) THEN 0 ELSE Mul(y, Poly(c, y, i + 1)))

\* denominators, numerators of penetration (over rho^(2l+1)) and shift (D.11, D.12), scaled for large l
Den(l, r) == LET y == Sq(r) IN
    CASE l = 0 -> One
      [] l = 1 -> One + y
      [] l = 2 -> Poly(<<F(9, 1), F(3, 1), One>>, y, 1)
      [] l = 3 -> Poly(<<F(225, 16), F(45, 16), F(6, 16), F(1, 16)>>, y, 1)
      [] l = 4 -> Poly(<<F(11025 \div 9, 128) * 9, F(1575, 128), F(135, 128), F(10, 128), F(1, 128)>>, y, 1)
RECURSIVE Pow(_, _)
Pow(r, n) == IF n = 0 THEN One ELSE Mul(r, Pow(r, n - 1))
\* rho^(2l+1) with the same scale
Top(l, r) == LET y == Sq(r) IN
    CASE l = 0 -> r
      [] l = 1 -> Mul(y, r)
      [] l = 2 -> Mul(Sq(y), r)
      [] l = 3 -> Mul(Mul(Sq(y) \div 16, y), r)
      [] l = 4 -> Mul(Mul(Mul(y \div 128, y), Sq(y)), r)
Pen(l, r) == Div(Top(l, r), Den(l, r))
Shift(l, r) == LET y == Sq(r) IN
    -Div(CASE l = 0 -> 0
           [] l = 1 -> One
           [] l = 2 -> F(18, 1) + (3 * y)
           [] l = 3 -> Poly(<<F(675, 16), F(90, 16), F(6, 16)>>, y, 1)
           [] l = 4 -> Poly(<<F(1225, 128) * 36, F(1575, 128) * 3, F(270, 128), F(10, 128)>>, y, 1), Den(l, r))
\* e^(-2 i phi): t is <<cos 2 rho, sin 2 rho>>, phi = rho - arctan(n / d)  (D.13)
Phase(l, r, t) ==
    LET y == Sq(r)
        n == CASE l = 0 -> 0 [] l = 1 -> r [] l = 2 -> 3 * r
               [] l = 3 -> Mul(F(15, 16) - (y \div 16), r)
               [] l = 4 -> Mul(F(105, 128) - ((10 * y) \div 128), r)
        d == CASE l = 0 -> One [] l = 1 -> One [] l = 2 -> F(3, 1) - y
               [] l = 3 -> F(15, 16) - ((6 * y) \div 16)
               [] l = 4 -> Poly(<<F(105, 128), -F(45, 128), F(1, 128)>>, y, 1)
        a == IF Abs(n) <= Abs(d) THEN <<One, Div(n, d)>> ELSE <<Div(d, n), One>>
        e == CDiv(CMul(a, a), CR(CAbs2(a)))
    IN CMul(<<t[1], -t[2]>>, e)

\* a penetration over another, and the shift of the resonance energy (D.9); r, r0: rho
Ratio(l, r, r0) == Div(Mul(Pow(Div(r, r0), (2 * l) + 1), Den(l, r0)), Den(l, r))
\* c: [l, k, h, kw, t, q, res]: kappas of the channel and the scattering radius at E, of the channel at the
\* energy of the competing channel, cosine and sine of twice the rho of the scattering radius
\* x: [e, k, kw, J2, neg, gn, gg, gf, gx, gfa, gfb]
Rho(k, e) == Mul(k, Sqrt(Abs(e)))
Width(c, x, E) == Mul(Ratio(c.l, Rho(c.k, E), Rho(x.k, x.e)), x.gn)
Moved(c, x, E) == IF c.l = 0 THEN x.e ELSE
    LET r == Rho(x.k, x.e) IN x.e + Div(Mul(Shift(c.l, r) - Shift(c.l, Rho(c.k, E)), x.gn), 2 * Pen(c.l, r))
\* competing channel: none below its threshold
Other(c, x, E) == IF x.gx = 0 \/ E + c.q < 0 THEN 0 ELSE Mul(Ratio(c.l, Rho(c.kw, E + c.q), Rho(x.kw, x.e + c.q)), x.gx)
Total(c, x, E) == Width(c, x, E) + x.gg + x.gf + Other(c, x, E)
Gj(I2, J2) == F(J2 + 1, 2 * (I2 + 1))
Phi(c, E) == Phase(c.l, Rho(c.h, E), c.t)

\* over (E - E')^2 + (total / 2)^2
Peak(c, x, E, num) == Div(num, Sq(E - Moved(c, x, E)) + Sq(Total(c, x, E) \div 2))
Part(cs, f(_)) == Sum([i \in DOMAIN cs |-> f(cs[i])])
Absorbed(I2, cs, E, g(_)) ==
    LET of(c) == Sum([i \in DOMAIN c.res |-> LET x == c.res[i] IN Mul(Gj(I2, x.J2), Peak(c, x, E, Mul(Width(c, x, E), g(x))))]) IN Part(cs, of)
Capture(x) == x.gg
Fission(x) == x.gf
SLBW(I2, cs, E) ==
    LET el(c) == LET p == Phi(c, E)  s2 == One - p[1] IN  \* 2 sin^2 phi
                 (2 * ((2 * c.l) + 1) * s2) +
                 Sum([i \in DOMAIN c.res |-> LET x == c.res[i]  gn == Width(c, x, E)  d == E - Moved(c, x, E) IN
                      Mul(Gj(I2, x.J2), Peak(c, x, E, Mul(gn, Mul(gn, p[1]) - Mul(x.gg + x.gf, s2) - (2 * Mul(d, p[2])))))])
    IN <<Part(cs, el), Absorbed(I2, cs, E, Capture), Absorbed(I2, cs, E, Fission)>>
\* the levels of one spin interfere; spins without levels scatter by potential
Spins(I2, l) == LET lo == Abs(Abs(I2 - (2 * l)) - 1) b == I2 + (2 * l) + 1 IN {j \in lo..b : (j - lo) % 2 = 0}
MLBW(I2, cs, E) ==
    LET el(c) ==
          LET p == Phi(c, E)
              g(j) == Gj(I2, j)
              part(j) == LET R == {i \in DOMAIN c.res : c.res[i].J2 = j}
                             a == Sum([i \in R |-> LET x == c.res[i] IN Peak(c, x, E, Mul(Width(c, x, E), Total(c, x, E)) \div 2)])
                             b == Sum([i \in R |-> LET x == c.res[i] IN Peak(c, x, E, Mul(Width(c, x, E), E - Moved(c, x, E)))])
                         IN Mul(g(j), Sq(One - p[1] - a) + Sq(b - p[2]))
          IN Sum([j \in Spins(I2, c.l) |-> part(j)])
             + (2 * Mul(F((2 * c.l) + 1, 1) - Sum([j \in Spins(I2, c.l) |-> g(j)]), One - p[1]))
    IN <<Part(cs, el), Absorbed(I2, cs, E, Capture), Absorbed(I2, cs, E, Fission)>>

\* Reich-Moore: channels of spin s; the sign of J tells the channel if two are possible
Chan(I2) == {Abs(I2 - 1), I2 + 1}
Reach(l, s) == {j \in Abs((2 * l) - s)..((2 * l) + s) : (j - s) % 2 = 0}
InChan(I2, l, s, j, x) ==
    /\ x.J2 = j
    /\ (l > 0 /\ (\A r \in Chan(I2) : j \in Reach(l, r))) =>
         s = (IF x.neg THEN Abs(I2 - 1) ELSE I2 + 1)
Root2(a) == IF a < 0 THEN -Sqrt(-a) ELSE Sqrt(a)
\* inverse of a 3 x 3 matrix: first column
Minor(M, a, b, c, d) == CSub(CMul(M[a][c], M[b][d]), CMul(M[a][d], M[b][c]))
FirstColumn(M) ==
    LET m1 == Minor(M, 2, 3, 2, 3)  m2 == Minor(M, 2, 3, 1, 3)  m3 == Minor(M, 2, 3, 1, 2)
        det == CAdd(CSub(CMul(M[1][1], m1), CMul(M[1][2], m2)), CMul(M[1][3], m3))
    IN <<CDiv(m1, det), CDiv(<<-m2[1], -m2[2]>>, det), CDiv(m3, det)>>
RM(I2, cs, E) ==
    LET one(c, s, j) ==
          LET R == {i \in DOMAIN c.res : InChan(I2, c.l, s, j, c.res[i])}
              vec == TLCEval([i \in R |-> <<Sqrt(Width(c, c.res[i], E)), Root2(c.res[i].gfa), Root2(c.res[i].gfb)>>])
              fac == TLCEval([i \in R |-> CDiv(CI(Half), <<c.res[i].e - E, -(c.res[i].gg \div 2)>>)])
              M == TLCEval([a \in 1..3 |-> [b \in 1..3 |->
                    <<(IF a = b THEN One ELSE 0) - Sum([i \in R |-> Mul(fac[i][1], Mul(vec[i][a], vec[i][b]))]),
                      -Sum([i \in R |-> Mul(fac[i][2], Mul(vec[i][a], vec[i][b]))])>>]])
              col == IF R = {} THEN <<CR(One), CR(0), CR(0)>> ELSE FirstColumn(M)
              p == Phi(c, E)
              U == CMul(p, <<(2 * col[1][1]) - One, 2 * col[1][2]>>)
              g == Gj(I2, j)
              el == Mul(g, Sq(One - U[1]) + Sq(U[2]))
              fi == 4 * Mul(g, CAbs2(col[2]) + CAbs2(col[3]))
              to == 2 * Mul(g, One - U[1])
          IN <<el, to - el - fi, fi>>
        keys == UNION {UNION {{<<i, s, j>> : j \in Reach(cs[i].l, s)} : s \in Chan(I2)} : i \in DOMAIN cs}
        parts == TLCEval([k \in keys |-> one(cs[k[1]], k[2], k[3])])
    IN <<Sum([k \in keys |-> parts[k][1]]), Sum([k \in keys |-> parts[k][2]]), Sum([k \in keys |-> parts[k][3]])>>

Sigma(form, I2, cs, E) == CASE form = 1 -> SLBW(I2, cs, E) [] form = 2 -> MLBW(I2, cs, E) [] form = 3 -> RM(I2, cs, E)

(***************************************************************************)
CONSTANTS Spins2, Ls, Energies, Widths, Kappas, Phases
VARIABLES I2, l1, J2, e1, ee, gn, gg, gf, kap, ph
lvars == <<I2, l1, J2, e1, ee, gn, gg, gf, kap, ph>>
LInit == /\ I2 \in Spins2 /\ l1 \in Ls /\ J2 \in Spins(I2, l1) /\ kap \in Kappas /\ ph \in Phases
         /\ e1 = 0 /\ ee = 0 /\ gn = 0 /\ gg = 0 /\ gf = 0
LNext == /\ e1 = 0
         /\ e1' \in Energies /\ ee' \in {e \in Energies : e > 0} /\ gn' \in Widths /\ gg' \in Widths /\ gf' \in {0} \cup Widths
         /\ UNCHANGED <<I2, l1, J2, kap, ph>>
LSpec == LInit /\ [][LNext]_lvars

Res(e, j, n, g, f, fa, fb) == [e |-> e, k |-> kap, kw |-> kap, J2 |-> j, neg |-> FALSE, gn |-> n, gg |-> g, gf |-> f, gx |-> 0, gfa |-> fa, gfb |-> fb]
Ch(res) == [l |-> l1, k |-> kap, h |-> kap, kw |-> kap, t |-> ph, q |-> 0, res |-> res]
Level1 == Res(e1, J2, gn, gg, gf, gf, 0)
Level2 == Res(e1 + F(7, 2), J2, gg, gn, gf, 0, -gf)
Near(a, b) == Abs(a - b) <= 200 + ((Abs(a) + Abs(b)) \div 2000)
All3(a, b) == \A i \in 1..3 : Near(a[i], b[i])
\* one level: the forms agree, where they are to (Reich-Moore does not shift, and knows the channel spin)
\* (from l = 3 on two energies three to one apart already leave the range of the arithmetic)
OneLevel == (e1 # 0 /\ l1 < 3) => LET cs == <<Ch(<<Level1>>)>>  a == SLBW(I2, cs, ee) IN
    /\ All3(a, MLBW(I2, cs, ee))
    /\ l1 = 0 => All3(a, RM(I2, cs, ee))
\* two levels: absorption of the Breit-Wigner forms is the sum, the order does not count, nothing is negative
TwoLevels == (e1 # 0 /\ l1 < 3) => LET cs == <<Ch(<<Level1, Level2>>)>> sc == <<Ch(<<Level2, Level1>>)>>
                 m == MLBW(I2, cs, ee)  r == RM(I2, cs, ee)
                 a == SLBW(I2, <<Ch(<<Level1>>)>>, ee)  b == SLBW(I2, <<Ch(<<Level2>>)>>, ee) IN
    /\ Near(m[2], a[2] + b[2]) /\ Near(m[3], a[3] + b[3])
    /\ All3(m, MLBW(I2, sc, ee)) /\ All3(r, RM(I2, sc, ee))
    /\ \A i \in 1..3 : r[i] >= -500 /\ m[i] >= -500
    \* a spin takes no more than its share: |U| <= 1
    /\ r[1] + r[2] + r[3] <= (4 * ((2 * l1) + 1) * One) + 500
\* widths of the channel: penetration and shift of l from those of l - 1, and the phase
Recursion == LET r == Rho(kap, ee) IN (l1 > 0 /\ e1 # 0) =>
    LET y == Sq(r)  p == IF l1 = 1 THEN r ELSE Pen(l1 - 1, r)  sh == IF l1 = 1 THEN 0 ELSE Shift(l1 - 1, r)
        n == Sq(F(l1, 1) - sh) + Sq(p) IN
    /\ Abs(Mul(Pen(l1, r), n) - Mul(y, p)) <= 300
    /\ Abs(Mul(Shift(l1, r) + F(l1, 1), n) - Mul(y, F(l1, 1) - sh)) <= 2000
    \* phi(l) = phi(l - 1) - arctan(p / (l - s)), so that e^(-2 i phi) turns by twice that
    /\ LET old == Phase(l1 - 1, r, ph)  new == Phase(l1, r, ph)
           v == <<F(l1, 1) - sh, p>>
           w == CMul(v, v)
           turn == <<Div(w[1], n), Div(w[2], n)>>
           d == CSub(new, CMul(old, turn)) IN Abs(d[1]) + Abs(d[2]) <= 300
============================================================================

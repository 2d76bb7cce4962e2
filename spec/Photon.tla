--------------------------------- MODULE Photon ---------------------------------
(* Interactions of photons with atoms: files 23 and 27, relaxation of atoms     *)
(* (file 28), ACE tables of type p, and the HDF5 files of several elements.     *)
(* ENDF sections are [mf, mt, recs], records [c, n, r, v], reals in             *)
(* thousandths; ACE tables [nxs, jxs, x], words in 1/U.                         *)
EXTENDS Nuclides

U == 1024
\* 1/1024 MeV in sixteenths of an electronvolt
EV == 15625
Shells == <<"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5", "N1", "N2", "N3", "N4", "N5", "N6", "N7", "O1", "O2", "O3", "O4", "O5", "O6", "O7", "O8", "O9",
            "P1", "P2", "P3", "P4", "P5", "P6", "P7", "P8", "P9", "P10", "P11", "Q1", "Q2", "Q3">>
Shell(i) == IF i = 0 THEN "" ELSE Shells[i]
None == [k |-> 0, x |-> <<>>, y |-> <<>>, r |-> <<>>]
Tab(r) == [k |-> 1, r |-> r.r, x |-> [j \in 1..(Len(r.v) \div 2) |-> r.v[2 * j - 1]], y |-> [j \in 1..(Len(r.v) \div 2) |-> r.v[2 * j]]]

(***************************************************************************)
(* ENDF: one section after another                                         *)
(***************************************************************************)
Find(secs, mf, mt) == IF \E i \in DOMAIN secs : secs[i].mf = mf /\ secs[i].mt = mt
                      THEN Tab(secs[CHOOSE i \in DOMAIN secs : secs[i].mf = mf /\ secs[i].mt = mt].recs[2]) ELSE None
Reaction(secs, i) ==
    LET mt == secs[i].mt
        r == secs[i].recs[2] IN
    [mt |-> mt, xs |-> Tab(r), eb |-> IF mt \in 534..599 THEN <<r.c[1]>> ELSE <<>>, fy |-> IF mt \in 534..572 THEN <<r.c[2]>> ELSE <<>>,
     ff |-> Find(secs, 27, mt), re |-> IF mt = 502 THEN Find(secs, 27, 506) ELSE None, im |-> IF mt = 502 THEN Find(secs, 27, 505) ELSE None]
ReadStart == [i |-> 1, out |-> <<>>]
ReadDone(secs, s) == s.i > Len(secs)
ReadStep(secs, s) == [i |-> s.i + 1, out |-> IF secs[s.i].mf = 23 THEN Append(s.out, Reaction(secs, s.i)) ELSE s.out]
RECURSIVE ReadAll(_, _)
ReadAll(secs, s) == IF ReadDone(secs, s) THEN s.out ELSE ReadAll(secs, ReadStep(secs, s))

\* relaxation: shell by shell, from the records of 28/533
RShell(r) == [shell |-> Shell(r.c[1] \div 1000), eb |-> r.v[1], n |-> r.v[2],
    tr |-> [j \in 1..r.n[4] |-> LET w == SubSeq(r.v, 6 * j + 1, 6 * j + 4) IN <<Shell(w[1] \div 1000), Shell(w[2] \div 1000), w[3], w[4]>>]]
Relaxation(recs) == [j \in 1..recs[1].n[3] |-> RShell(recs[j + 1])]

(***************************************************************************)
(* ACE tables                                                              *)
(***************************************************************************)
IntAt(f, i) == f.x[i] \div U
Slice(f, i, n) == SubSeq(f.x, i, i + n - 1)
Ev(s) == [k \in DOMAIN s |-> s[k] * EV]
NE(f) == f.nxs[3]
LogE(f) == Slice(f, f.jxs[1], NE(f))
Column(mt) == CASE mt = 504 -> 1 [] mt = 502 -> 2 [] mt = 522 -> 3 [] OTHER -> 4
LogXs(f, mt) == Slice(f, f.jxs[1] + Column(mt) * NE(f), NE(f))
\* arguments of the factors where the table does not give them, in thousandths
CohX == <<0, 10, 20, 30, 40, 50, 60, 80, 100, 120, 150, 180, 200, 250, 300, 350, 400, 450, 500, 550, 600, 700, 800, 900, 1000, 1100, 1200, 1300, 1400, 1500, 1600,
          1700, 1800, 1900, 2000, 2200, 2400, 2600, 2800, 3000, 3200, 3400, 3600, 3800, 4000, 4200, 4400, 4600, 4800, 5000, 5200, 5400, 5600, 5800, 6000>>
IncX == <<0, 5, 10, 50, 100, 150, 200, 300, 400, 500, 600, 700, 800, 900, 1000, 1500, 2000, 3000, 4000, 5000, 8000>>
New(f) == f.nxs[6] > 0
Factor(f, mt) ==
    CASE mt = 502 /\ New(f) -> LET n == (f.jxs[4] - f.jxs[3]) \div 3 IN [x |-> Slice(f, f.jxs[3], n), y |-> Slice(f, f.jxs[3] + 2 * n, n)]
      [] mt = 502 -> [x |-> CohX, y |-> Slice(f, f.jxs[3] + Len(CohX), Len(CohX))]
      [] mt = 504 /\ New(f) -> LET n == (f.jxs[3] - f.jxs[2]) \div 2 IN [x |-> Slice(f, f.jxs[2], n), y |-> Slice(f, f.jxs[2] + n, n)]
      [] mt = 504 -> [x |-> IncX, y |-> Slice(f, f.jxs[2], Len(IncX))]
      [] OTHER -> [x |-> <<>>, y |-> <<>>]
Profile(f, k) == LET p == f.jxs[10] + IntAt(f, f.jxs[9] + k - 1) - 1
                     m == IntAt(f, p + 1) IN [law |-> IntAt(f, p), x |-> Slice(f, p + 2, m), y |-> Slice(f, p + 2 + m, m)]
Compton(f) == [n |-> Slice(f, f.jxs[6], f.nxs[5]), eb |-> Ev(Slice(f, f.jxs[7], f.nxs[5])), J |-> [k \in 1..f.nxs[5] |-> Profile(f, k)]]
NT(f, i) == IntAt(f, f.jxs[15] + i - 1)
RECURSIVE Skip(_, _)
Skip(f, i) == IF i = 1 THEN 0 ELSE Skip(f, i - 1) + NT(f, i - 1)
TrAt(f, i, j) == f.jxs[18] + 4 * (Skip(f, i) + j - 1)
AShell(f, i) == [shell |-> Shell(IntAt(f, f.jxs[11] + i - 1)), n |-> f.x[f.jxs[12] + i - 1], eb |-> f.x[f.jxs[13] + i - 1] * EV, mt |-> 533 + IntAt(f, f.jxs[11] + i - 1),
    xs |-> Slice(f, f.jxs[16] + (i - 1) * NE(f), NE(f)),
    \* probabilities are accumulated in the table
    tr |-> [j \in 1..NT(f, i) |-> LET p == TrAt(f, i, j) IN
        <<Shell(IntAt(f, p)), Shell(IntAt(f, p + 1)), f.x[p + 2] * EV, f.x[p + 3] - (IF j = 1 THEN 0 ELSE f.x[p - 1])>>]]
AShells(f) == [i \in 1..f.nxs[7] |-> AShell(f, i)]
AMts(f) == <<502, 504, 515, 522>> \o [i \in 1..f.nxs[7] |-> 533 + IntAt(f, f.jxs[11] + i - 1)]

(***************************************************************************)
(* Files: elements are added; a file opened anew is empty, a new file must *)
(* not exist, an element is there once.                                    *)
(***************************************************************************)
Outcome(file, el, mode) == CASE mode = "w" -> "ok"
                             [] mode = "x" -> IF file.there THEN "refused" ELSE "ok"
                             [] mode = "r+" -> IF ~file.there \/ el \in file.els THEN "refused" ELSE "ok"
                             [] OTHER -> IF el \in file.els THEN "refused" ELSE "ok"
Export(file, el, mode) == IF Outcome(file, el, mode) = "refused" THEN file
                          ELSE [there |-> TRUE, els |-> IF mode = "w" THEN {el} ELSE file.els \cup {el}]
NoFile == [there |-> FALSE, els |-> {}]

\* a table at e: its value there; bounds where the law is a logarithmic one
RECURSIVE LawOf(_, _, _)
LawOf(t, i, k) == IF i < t.r[k][1] THEN t.r[k][2] ELSE LawOf(t, i, k + 1)
At(t, e, v) ==
    LET n == Len(t.x) IN
    IF e < t.x[1] \/ e > t.x[n] THEN v = 0
    ELSE IF \E i \in 1..n : t.x[i] = e THEN v = t.y[CHOOSE i \in 1..n : t.x[i] = e]
    ELSE LET i == CHOOSE i \in 1..(n - 1) : t.x[i] < e /\ e < t.x[i + 1]
             w == LawOf(t, i, 1)
             lo == IF t.y[i] < t.y[i + 1] THEN t.y[i] ELSE t.y[i + 1]
             hi == IF t.y[i] < t.y[i + 1] THEN t.y[i + 1] ELSE t.y[i]
             lin == t.y[i] + (((e - t.x[i]) * (t.y[i + 1] - t.y[i])) \div (t.x[i + 1] - t.x[i])) IN
         IF w = 1 THEN v = t.y[i] ELSE IF w = 2 THEN v - lin \in {-1, 0, 1, 2} ELSE lo - 1 <= v /\ v <= hi + 1
\* twice the integral of y^2 over x^2, for each point (whole x and y)
RECURSIVE Squares(_, _)
Squares(t, i) == IF i = 1 THEN 0 ELSE
    LET X == t.x[i] \div 1000
        W == t.x[i - 1] \div 1000
        Y == t.y[i] \div 1000
        Z == t.y[i - 1] \div 1000 IN
    Squares(t, i - 1) + (X * X - W * W) * (IF LawOf(t, i - 1, 1) = 1 THEN 2 * Z * Z ELSE Y * Y + Z * Z)
=================================================================================

------------------------------- MODULE AceFile -------------------------------
(* The layout of a continuous-energy ACE table: what NXS and JXS say about      *)
(* XSS, and what a reader has to find there.  f is a record [nxs, jxs, x];      *)
(* x holds the values in units of 1/U (integers of the file are multiples of U).*)
(* Energies are in units of 1/U MeV.                                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

U == 1024
R == INSTANCE Reactions

IntAt(f, i) == f.x[i] \div U
Slice(f, i, n) == SubSeq(f.x, i, i + n - 1)
Ints(f, i, n) == [k \in 1..n |-> IntAt(f, i + k - 1)]
Clip(s) == [k \in DOMAIN s |-> IF s[k] < 0 THEN 0 ELSE s[k]]
AbsV(n) == IF n < 0 THEN -n ELSE n

NES(f) == f.nxs[3]
NTR(f) == f.nxs[4]
NR(f) == f.nxs[5]
Energies(f) == Slice(f, f.jxs[1], NES(f))

\* ---- cross sections ------------------------------------------------------------
Full(f, k) == [first |-> 1, y |-> Slice(f, f.jxs[1] + k * NES(f), NES(f))]
RxMt(f, i) == IntAt(f, f.jxs[3] + i - 1)
RxQ(f, i) == f.x[f.jxs[4] + i - 1]
RxTy(f, i) == IntAt(f, f.jxs[5] + i - 1)
RxSig(f, i) ==
    LET s == f.jxs[7] + IntAt(f, f.jxs[6] + i - 1) - 1
        n == IntAt(f, s + 1) IN
    [first |-> IntAt(f, s), y |-> Clip(Slice(f, s + 2, n))]
Ignored(mt) == mt \in (201..218) \cup {444}

FileMts(f) == {RxMt(f, i) : i \in 1..NTR(f)} \ {m \in {RxMt(f, i) : i \in 1..NTR(f)} : Ignored(m)}
IndexOf(f, mt) == CHOOSE i \in 1..NTR(f) : RxMt(f, i) = mt
HasDisappearance(f) == \E k \in 1..NES(f) : Full(f, 2).y[k] # 0

Base(f) == [mt \in FileMts(f) \cup {1, 2} \cup (IF HasDisappearance(f) THEN {101} ELSE {}) |->
    IF mt = 2 THEN [first |-> 1, y |-> Clip(Full(f, 3).y)]
    ELSE IF mt \in FileMts(f) THEN RxSig(f, IndexOf(f, mt))
    ELSE IF mt = 1 THEN Full(f, 1)
    ELSE Full(f, 2)]

\* the reactions with cross sections that make up mt, at the deepest level given
RECURSIVE Components(_, _)
Components(mt, present) ==
    LET S == UNION {Components(c, present) : c \in R!Parts(mt)} IN
    IF S # {} THEN S ELSE IF mt \in present THEN {mt} ELSE {}

ValueAt(t, i) == IF i >= t.first /\ i < t.first + Len(t.y) THEN t.y[i - t.first + 1] ELSE 0
SumOf(t, mts, n) ==
    LET first == Min({t[m].first : m \in mts}) IN
    [first |-> first, y |-> [k \in 1..(n - first + 1) |->
        FoldSet(LAMBDA m, acc : acc + ValueAt(t[m], first + k - 1), 0, mts)]]

NP(f) == f.nxs[6]
PhotonMt(f, i) == IntAt(f, f.jxs[13] + i - 1)
PhotonSums(f) == {PhotonMt(f, i) \div 1000 : i \in 1..NP(f)} \cap (R!Sums \ {3})
\* sums that are missing although their parts are there: for photon production, then level sums
AddSums(t, sums, n) ==
    LET new == {s \in sums : s \notin DOMAIN t /\ Components(s, DOMAIN t) # {}} IN
    [mt \in DOMAIN t \cup new |-> IF mt \in DOMAIN t THEN t[mt] ELSE SumOf(t, Components(mt, DOMAIN t), n)]
Tables(f) == AddSums(AddSums(Base(f), PhotonSums(f), NES(f)), {16, 103, 104, 105, 106, 107}, NES(f))
Redundant(f, mt) ==
    \/ mt = 1 \/ (mt = 101 /\ HasDisappearance(f))
    \/ mt \notin DOMAIN Base(f)
    \/ Components(mt, DOMAIN Tables(f)) # {mt}

\* ---- tables and secondary neutrons ----------------------------------------------
TabLen(f, i) == LET nr == IntAt(f, i) IN 2 + 2 * nr + 2 * IntAt(f, i + 1 + 2 * nr)
Tab(f, i) ==
    LET nr == IntAt(f, i)
        n == IntAt(f, i + 1 + 2 * nr)
        j == i + 2 + 2 * nr IN
    [bp |-> IF nr = 0 THEN <<n>> ELSE Ints(f, i + 1, nr),
     law |-> IF nr = 0 THEN <<2>> ELSE Ints(f, i + 1 + nr, nr),
     x |-> Slice(f, j, n), y |-> Slice(f, j + n, n)]
NuForm(f, i) ==
    IF IntAt(f, i) = 1 THEN [k |-> "poly", c |-> Slice(f, i + 2, IntAt(f, i + 1))]
    ELSE [k |-> "tab", t |-> Tab(f, i + 1)]

Scheme(n) == IF n = 1 THEN 1 ELSE 2       \* histogram or lin-lin, anything else is read as lin-lin
OutTab(f, i, rows) ==
    LET intt == IntAt(f, i)
        nd == intt \div 10
        n == IntAt(f, i + 1)
        row(k) == Slice(f, i + 2 + (k - 1) * n, n)
        cont(s) == SubSeq(s, nd + 1, n)
        disc(s) == SubSeq(s, 1, nd) IN
    [int |-> IF nd = n THEN 0 ELSE Scheme(intt % 10), x |-> cont(row(1)), p |-> cont(row(2)), c |-> cont(row(3)),
     dx |-> disc(row(1)), dp |-> disc(row(2))]
AngTab(f, i) ==
    LET n == IntAt(f, i + 1) IN
    [k |-> "tab", int |-> IntAt(f, i), x |-> Slice(f, i + 2, n), p |-> Slice(f, i + 2 + n, n), c |-> Slice(f, i + 2 + 2 * n, n)]
Iso == [k |-> "iso"]

\* the law at data index d of the block that starts at blk
EnergyLaw(f, blk, law, d) ==
    LET nr == IntAt(f, d)
        ne == IntAt(f, d + 1 + 2 * nr)
        head == [bp |-> IF nr = 0 THEN <<ne>> ELSE Ints(f, d + 1, nr),
                 itp |-> IF nr = 0 THEN <<2>> ELSE Ints(f, d + 1 + nr, nr),
                 ein |-> Slice(f, d + 2 + 2 * nr, ne)]
        at(k) == blk + IntAt(f, d + 2 + 2 * nr + ne + k - 1) - 1
        n(k) == IntAt(f, at(k) + 1) IN
    CASE law = 2 -> [law |-> 2, flag |-> IntAt(f, d), e |-> f.x[d + 1]]
      [] law \in {3, 33} -> [law |-> 3, thr |-> f.x[d], ratio |-> f.x[d + 1]]
      [] law \in {7, 9} -> [law |-> law, theta |-> Tab(f, d), u |-> f.x[d + TabLen(f, d)]]
      [] law = 11 -> LET d2 == d + TabLen(f, d) IN
                     [law |-> 11, a |-> Tab(f, d), b |-> Tab(f, d2), u |-> f.x[d2 + TabLen(f, d2)]]
      [] law = 4 -> [law |-> 4, head |-> head, out |-> [k \in 1..ne |-> OutTab(f, at(k), 3)]]
      [] law = 44 -> [law |-> 44, head |-> head, out |-> [k \in 1..ne |-> OutTab(f, at(k), 5)],
                      r |-> [k \in 1..ne |-> Slice(f, at(k) + 2 + 3 * n(k), n(k))],
                      a |-> [k \in 1..ne |-> Slice(f, at(k) + 2 + 4 * n(k), n(k))]]
      [] law = 61 -> [law |-> 61, head |-> head, out |-> [k \in 1..ne |-> OutTab(f, at(k), 4)],
                      mu |-> [k \in 1..ne |-> [j \in 1..n(k) |->
                          LET lc == IntAt(f, at(k) + 2 + 3 * n(k) + j - 1) IN
                          IF lc > 0 THEN AngTab(f, blk + lc - 1) ELSE Iso]]]
      [] law = 66 -> [law |-> 66, n |-> IntAt(f, d), mass |-> f.x[d + 1]]
LawAt(f, blk, loc) ==
    LET i == blk + loc - 1 IN
    EnergyLaw(f, blk, IntAt(f, i + 1), blk + IntAt(f, i + 2) - 1)

RECURSIVE LawChain(_, _, _)
LawChain(f, blk, loc) ==
    IF loc = 0 THEN <<>>
    ELSE <<[app |-> Tab(f, blk + loc + 2), d |-> LawAt(f, blk, loc)]>> \o LawChain(f, blk, IntAt(f, blk + loc - 1))

\* angular distribution of emitting reaction i (0: elastic)
Angle(f, i) ==
    LET loc == IntAt(f, f.jxs[8] + i) IN
    IF loc <= 0 THEN [k |-> "none"]
    ELSE LET j == f.jxs[9] + loc - 1
             n == IntAt(f, j) IN
         [k |-> "ang", e |-> Slice(f, j + 1, n),
          mu |-> [m \in 1..n |-> LET lc == IntAt(f, j + n + m) IN
                    IF lc = 0 THEN Iso
                    ELSE IF lc < 0 THEN AngTab(f, f.jxs[9] - lc - 1)
                    ELSE [k |-> "equi", x |-> Slice(f, f.jxs[9] + lc - 1, 33)]]]

Correlated(law) == law \in {44, 61, 66}
\* each secondary distribution carries the reaction's angle unless it is correlated
NeutronDists(f, i) ==
    LET ch == LawChain(f, f.jxs[11], IntAt(f, f.jxs[10] + i - 1)) IN
    [k \in DOMAIN ch |-> [app |-> ch[k].app, d |-> ch[k].d,
        angle |-> IF Correlated(ch[k].d.law) THEN [k |-> "none"] ELSE Angle(f, i)]]

Yield(f, i) ==
    LET ty == AbsV(RxTy(f, i)) IN
    IF ty > 100 THEN [k |-> "tab", t |-> Tab(f, f.jxs[11] + ty - 101)]
    ELSE [k |-> "poly", c |-> <<ty * U>>]

\* ---- fission ----------------------------------------------------------------------
HasNu(f) == f.jxs[2] > 0
BothNu(f) == HasNu(f) /\ f.x[f.jxs[2]] < 0
PromptNu(f) == NuForm(f, IF BothNu(f) THEN f.jxs[2] + 1 ELSE f.jxs[2])
PromptMode(f) == IF BothNu(f) \/ f.jxs[24] > 0 THEN "prompt" ELSE "total"
TotalNu(f) == NuForm(f, f.jxs[2] + AbsV(IntAt(f, f.jxs[2])) + 1)

Delayed(f) == f.jxs[24] > 0
NGroups(f) == IF Delayed(f) THEN f.nxs[8] ELSE 0
RECURSIVE GroupAt(_, _)
GroupAt(f, g) == IF g = 1 THEN f.jxs[25] ELSE LET p == GroupAt(f, g - 1) IN p + 1 + TabLen(f, p + 1)
DelayedNu(f) == Tab(f, f.jxs[24] + 1)
GroupProb(f, g) == Tab(f, GroupAt(f, g) + 1).y[1]
SumProb(f) == FoldSet(LAMBDA g, acc : acc + GroupProb(f, g), 0, 1..NGroups(f))
DelayedLaw(f, g) == LawAt(f, f.jxs[27], IntAt(f, f.jxs[26] + g - 1))
DelayedRate(f, g) == f.x[GroupAt(f, g)]

\* ---- photons ------------------------------------------------------------------------
PhotonsOf(f, mt) == {i \in 1..NP(f) : PhotonMt(f, i) \div 1000 = mt}
PhotonSig(f, i) == f.jxs[15] + IntAt(f, f.jxs[14] + i - 1) - 1
PhotonLaw(f, i) == LawAt(f, f.jxs[19], IntAt(f, f.jxs[18] + i - 1))

\* ---- unresolved resonances -------------------------------------------------------------
HasUrr(f) == f.jxs[23] > 0
Urr(f) ==
    LET i == f.jxs[23]
        n == IntAt(f, i)
        m == IntAt(f, i + 1) IN
    [int |-> IntAt(f, i + 2), inel |-> IntAt(f, i + 3), abs |-> IntAt(f, i + 4), smooth |-> IntAt(f, i + 5) = 1,
     e |-> Slice(f, i + 6, n),
     tab |-> [k \in 1..n |-> [r \in 1..6 |-> Slice(f, i + 6 + n + ((k - 1) * 6 + r - 1) * m, m)]]]

\* ---- identity ------------------------------------------------------------------------
RECURSIVE Mass(_, _)
Mass(a, z) == IF a > 3 * z THEN Mass(a - 100, z) ELSE a
Identity(zaid, scheme) ==
    LET z == (zaid \div 1000) % 1000
        a == zaid % 1000
        m == IF scheme = "mcnp" THEN
                 IF zaid > 1000000 THEN IF zaid = 1095242 THEN 0 ELSE zaid \div 1000000
                 ELSE IF zaid = 95242 THEN 1 ELSE IF zaid = 95642 THEN 0 ELSE IF a > 300 THEN 1 ELSE 0
             ELSE IF a > 300 THEN 1 ELSE 0 IN
    <<z, Mass(a, z), m>>

(***************************************************************************)
(* The reader as a process, on tables laid out by Lay: the values of every   *)
(* reaction are found again whatever the thresholds, orders and gaps.        *)
(***************************************************************************)
CONSTANTS Ns, Mts, Gaps, MaxRx
VARIABLES desc, file, found, step
avars == <<desc, file, found, step>>

Descs == {d \in [n : Ns, gap : Gaps, rx : UNION {[1..k -> [mt : Mts, ie : 1..3]] : k \in 0..MaxRx}] :
    /\ \A i \in DOMAIN d.rx : d.rx[i].ie <= d.n
    /\ \A i, j \in DOMAIN d.rx : i # j => d.rx[i].mt # d.rx[j].mt}
Vals(mt, n) == [k \in 1..n |-> 16 * mt + k]
Fill(n) == [k \in 1..n |-> 777]

\* blocks are laid one after the other with gaps between
Lay(d) ==
    LET n == d.n
        m == Len(d.rx)
        g == Fill(d.gap)
        esz == [k \in 1..n |-> k * U] \o Vals(1, n) \o Vals(101, n) \o Vals(2, n) \o [k \in 1..n |-> 0]
        b3 == esz \o g
        mtr == b3 \o [i \in 1..m |-> d.rx[i].mt * U] \o g
        lqr == mtr \o [i \in 1..m |-> i] \o g
        tyr == lqr \o [i \in 1..m |-> 0] \o g
        len(i) == n - d.rx[i].ie + 1
        loc(i) == 1 + FoldSet(LAMBDA j, acc : acc + 2 + len(j) + d.gap, 0, 1..(i - 1))
        lsig == tyr \o [i \in 1..m |-> loc(i) * U] \o g
        sig == FoldLeft(LAMBDA acc, r : acc \o <<r.ie * U, (n - r.ie + 1) * U>> \o Vals(r.mt, n - r.ie + 1) \o g, lsig, d.rx)
    IN [x |-> sig,
        nxs |-> [i \in 1..16 |-> CASE i = 3 -> n [] i = 4 -> m [] OTHER -> 0],
        jxs |-> [i \in 1..32 |-> CASE i = 1 -> 1 [] i = 3 -> Len(b3) + 1 [] i = 4 -> Len(mtr) + 1 [] i = 5 -> Len(lqr) + 1
                                   [] i = 6 -> Len(tyr) + 1 [] i = 7 -> Len(lsig) + 1 [] OTHER -> 0]]

AInit == desc \in Descs /\ file = Lay(desc) /\ found = <<>> /\ step = 0
ReadOne == /\ step < NTR(file) /\ step' = step + 1
           /\ found' = Append(found, [mt |-> RxMt(file, step + 1), q |-> RxQ(file, step + 1), sig |-> RxSig(file, step + 1)])
           /\ UNCHANGED <<desc, file>>
ASpec == AInit /\ [][ReadOne]_avars

FoundAsLaid == \A i \in DOMAIN found :
    /\ found[i].mt = desc.rx[i].mt /\ found[i].q = i
    /\ found[i].sig = [first |-> desc.rx[i].ie, y |-> Vals(desc.rx[i].mt, desc.n - desc.rx[i].ie + 1)]
EszAsLaid == /\ Full(file, 1).y = Vals(1, desc.n) /\ Full(file, 2).y = Vals(101, desc.n)
             /\ Energies(file) = [k \in 1..desc.n |-> k * U]
\* a level sum that is added equals its levels wherever any of them is defined
SumsRight == step = NTR(file) => \A s \in DOMAIN Tables(file) \ DOMAIN Base(file) :
    \A i \in 1..desc.n : ValueAt(Tables(file)[s], i) =
        FoldSet(LAMBDA m, acc : acc + ValueAt(Base(file)[m], i), 0, DOMAIN Base(file) \cap R!Parts(s))
==============================================================================

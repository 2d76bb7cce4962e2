------------------------------- MODULE MC_Photon -------------------------------
(* Evaluations with all combinations of sections; tables of all shapes laid out *)
(* block by block; files of several elements.                                  *)
EXTENDS Photon, Json

CONSTANTS MaxShells, MaxOps
VARIABLES d, pos, f, file, hist
vars == <<d, pos, f, file, hist>>

Kinds == {"endf", "ace", "history"}
Mts == {502, 504, 515, 517, 522, 534, 537}
Must == {502, 504, 522}
Endf == [k : {"endf"}, mts : {Must \cup s : s \in SUBSET (Mts \ Must)}, ff : SUBSET {502, 504, 505, 506}, relax : 0..MaxShells]
Ace == [k : {"ace"}, new : BOOLEAN, sub : 0..MaxShells, comp : 0..2, ntr : 0..2, gap : {0, 1}]
\* sections: cross sections, then factors
Order == <<502, 504, 515, 517, 522, 534, 537>>
Rec(c, n, r, v) == [c |-> c, n |-> n, r |-> r, v |-> v]
Sec(mf, mt) == [mf |-> mf, mt |-> mt, recs |-> <<Rec(<<92000000, 0>>, <<0, 0, 0, 0>>, <<>>, <<>>), Rec(<<mt, mf>>, <<0, 0, 1, 2>>, <<<<2, 2>>>>, <<1000, mt, 2000, mf>>)>>]
Secs(x) == LET a == SelectSeq(Order, LAMBDA m : m \in x.mts)
               b == SelectSeq(<<502, 504, 505, 506>>, LAMBDA m : m \in x.ff) IN
           [i \in 1..(Len(a) + Len(b)) |-> IF i <= Len(a) THEN Sec(23, a[i]) ELSE Sec(27, b[i - Len(a)])]

\* a table laid out block by block: <<pointer, words>>
N == 2
Seq1(n, F(_)) == [i \in 1..n |-> F(i)]
Cat(n, F(_)) == LET RECURSIVE C(_)
                    C(i) == IF i > n THEN <<>> ELSE F(i) \o C(i + 1) IN C(1)
NCoh(x) == IF x.new THEN 3 ELSE 55
NInc(x) == IF x.new THEN 2 ELSE 21
Trs(x, i) == (x.ntr + i) % 3
Blocks(x) == <<<<1, Seq1(5 * N, LAMBDA i : i)>>,
    <<2, Seq1(IF x.new THEN 2 * NInc(x) ELSE NInc(x), LAMBDA i : 100 + i)>>, <<3, Seq1(IF x.new THEN 3 * NCoh(x) ELSE 2 * NCoh(x), LAMBDA i : 200 + i)>>, <<4, <<1, 2>>>>>>
    \o (IF x.comp = 0 THEN <<>> ELSE <<<<6, Seq1(x.comp, LAMBDA i : 400 + i)>>, <<7, Seq1(x.comp, LAMBDA i : 500 + i)>>,
        <<9, Seq1(x.comp, LAMBDA i : U * (1 + 8 * (i - 1)))>>, <<10, Cat(x.comp, LAMBDA i : <<2 * U, 2 * U, 600 + i, 610 + i, 620 + i, 630 + i, 0, U>>)>>>>)
    \o (IF x.sub = 0 THEN <<>> ELSE <<<<11, Seq1(x.sub, LAMBDA i : U * (2 * i - 1))>>, <<12, Seq1(x.sub, LAMBDA i : 700 + i)>>, <<13, Seq1(x.sub, LAMBDA i : 710 + i)>>,
        <<15, Seq1(x.sub, LAMBDA i : U * Trs(x, i))>>, <<16, Seq1(x.sub * N, LAMBDA i : 720 + i)>>,
        <<18, Cat(x.sub, LAMBDA i : Cat(Trs(x, i), LAMBDA j : <<U * (i + j), U * (j % 2), 10 * i + j, 100 * j>>))>>>>)
Nxs(x) == [i \in 1..16 |-> CASE i = 3 -> N [] i = 5 -> x.comp [] i = 6 -> (IF x.new THEN 3 ELSE 0) [] i = 7 -> x.sub [] OTHER -> 0]
Empty == [nxs |-> <<>>, jxs |-> [i \in 1..32 |-> 0], x |-> <<>>]

Init == /\ file = NoFile /\ hist = <<>>
        /\ \/ d \in Endf /\ pos = ReadStart /\ f = Empty
           \/ d \in Ace /\ pos = [i |-> 1, out |-> <<>>] /\ f = [Empty EXCEPT !.nxs = Nxs(d)]
           \/ d = [k |-> "history"] /\ pos = ReadStart /\ f = Empty
Read == d.k = "endf" /\ ~ReadDone(Secs(d), pos) /\ pos' = ReadStep(Secs(d), pos) /\ UNCHANGED <<d, f, file, hist>>
Lay == /\ d.k = "ace" /\ pos.i <= Len(Blocks(d))
       /\ LET b == Blocks(d)[pos.i] IN
          f' = [f EXCEPT !.x = @ \o [i \in 1..d.gap |-> 7] \o b[2], !.jxs[b[1]] = Len(f.x) + 1 + d.gap]
       /\ pos' = [pos EXCEPT !.i = @ + 1] /\ UNCHANGED <<d, file, hist>>
Do == /\ d.k = "history" /\ Len(hist) < MaxOps
      /\ \E el \in {1, 2}, m \in {"w", "a", "x", "r+"} : hist' = Append(hist, <<el, m>>) /\ file' = Export(file, el, m)
      /\ UNCHANGED <<d, pos, f>>
Next == Read \/ Lay \/ Do
Spec == Init /\ [][Next]_vars

\* every cross section of the file is there once, in order, with its own factors
Reads == d.k = "endf" /\ ReadDone(Secs(d), pos) => LET a == SelectSeq(Order, LAMBDA m : m \in d.mts) IN
    /\ [i \in DOMAIN pos.out |-> pos.out[i].mt] = a
    /\ \A i \in DOMAIN a : LET o == pos.out[i] IN
        /\ o.xs.y = <<o.mt, 23>>
        /\ (o.ff.k = 1 <=> o.mt \in d.ff) /\ (o.ff.k = 1 => o.ff.y = <<o.mt, 27>>)
        /\ (o.re.k = 1 <=> o.mt = 502 /\ 506 \in d.ff) /\ (o.im.k = 1 <=> o.mt = 502 /\ 505 \in d.ff)
        /\ (o.eb # <<>> <=> o.mt >= 534)
Laid == d.k = "ace" /\ pos.i > Len(Blocks(d))
ReadsAce == Laid =>
    /\ LogE(f) = <<1, 2>> /\ LogXs(f, 504) = <<3, 4>> /\ LogXs(f, 502) = <<5, 6>> /\ LogXs(f, 522) = <<7, 8>> /\ LogXs(f, 515) = <<9, 10>>
    /\ Factor(f, 504).y = Seq1(NInc(d), LAMBDA i : 100 + i + (IF d.new THEN NInc(d) ELSE 0))
    /\ Factor(f, 502).y = Seq1(NCoh(d), LAMBDA i : 200 + i + (IF d.new THEN 2 ELSE 1) * NCoh(d))
    /\ (d.comp > 0 => \A k \in 1..d.comp : Compton(f).n[k] = 400 + k /\ Compton(f).eb[k] = (500 + k) * EV /\ Compton(f).J[k] = [law |-> 2, x |-> <<600 + k, 610 + k>>, y |-> <<620 + k, 630 + k>>])
    /\ \A i \in 1..d.sub : LET s == AShells(f)[i] IN
        /\ s.shell = Shells[2 * i - 1] /\ s.n = 700 + i /\ s.eb = (710 + i) * EV /\ s.xs = <<720 + 2 * i - 1, 720 + 2 * i>> /\ Len(s.tr) = Trs(d, i)
        /\ \A j \in DOMAIN s.tr : s.tr[j] = <<Shells[i + j], IF j % 2 = 0 THEN "" ELSE "K", (10 * i + j) * EV, 100>>
\* elements are never lost but by opening the file anew
Kept == [][\A el \in file.els : el \in file'.els \/ (hist' # hist /\ hist'[Len(hist')][2] = "w")]_vars
Emit == (d.k = "endf" /\ ReadDone(Secs(d), pos)) \/ Laid \/ (d.k = "history" /\ Len(hist) = MaxOps) => PrintT("CASE " \o ToJson([d |-> d, hist |-> hist]))
================================================================================

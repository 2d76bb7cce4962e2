----------------------------- MODULE MC_EndfData -----------------------------
(* Evaluations with one reaction of interest: what is given for it is chosen, *)
(* sections with small numbers are built, and read as EndfData says.          *)
EXTENDS EndfData, Json

CONSTANTS MaxLaws, MaxLfs, GroupCounts
VARIABLES ch, pos
vars == <<ch, pos>>

Awr == 120      \* 15
Emax == 512
Rec(c, n, r, v) == [c |-> c, n |-> n, r |-> r, v |-> v]
Cont(c1, c2, l1, l2, n1, n2) == Rec(<<c1, c2>>, <<l1, l2, n1, n2>>, <<>>, <<>>)
Lst(c1, c2, l1, l2, n2, v) == Rec(<<c1, c2>>, <<l1, l2, Len(v), n2>>, <<>>, v)
T1(c1, c2, l1, l2, v) == Rec(<<c1, c2>>, <<l1, l2, 1, Len(v) \div 2>>, <<<<Len(v) \div 2, 2>>>>, v)
T2(l1, l2, nz) == Rec(<<0, 0>>, <<l1, l2, 1, nz>>, <<<<nz, 2>>>>, <<>>)
Hd(l1, l2, n1, n2) == Cont(8 * 92235, Awr, l1, l2, n1, n2)
Line(y) == <<8, y, 512, y>>

LawRecs(lf, share) ==
    LET s == T1(8, 0, 0, lf, Line(share)) IN
    CASE lf = 1 -> <<s, T2(0, 0, 2), T1(0, 8, 0, 0, <<8, 8, 16, 8>>), T1(0, 512, 0, 0, <<8, 8, 16, 8, 24, 8>>)>>
      [] lf \in {5, 11} -> <<s, T1(0, 0, 0, 0, Line(16)), T1(0, 0, 0, 0, <<0, 8, 8, 8>>)>>
      [] lf = 12 -> <<s, T1(8, 16, 0, 0, Line(24))>>
      [] OTHER -> <<s, T1(0, 0, 0, 0, Line(16))>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
\* the shares of the laws add up to one
F5(lfs) == <<Hd(0, 0, Len(lfs), 0)>> \o Flat([i \in DOMAIN lfs |-> LawRecs(lfs[i], IF Len(lfs) = 1 THEN 8 ELSE IF Len(lfs) = 2 THEN 4 ELSE IF i = 1 THEN 4 ELSE 2)])
F4(ltt, lvt) ==
    LET leg(e) == Lst(0, e, 0, 0, 0, <<4, 2>>)
        tb(e) == T1(0, e, 0, 0, <<-8, 4, 8, 4>>)
        b == <<Hd(lvt, ltt, 0, 0), Cont(0, Awr, IF ltt = 0 THEN 1 ELSE 0, 2, 0, 2)>> \o (IF lvt > 0 THEN <<Rec(<<0, Awr>>, <<0, 2, 2, 2>>, <<>>, <<8, 8>>)>> ELSE <<>>) IN
    CASE ltt = 0 -> b
      [] ltt = 1 -> b \o <<T2(0, 0, 2), leg(8), leg(512)>>
      [] ltt = 2 -> b \o <<T2(0, 0, 2), tb(8), tb(512)>>
      [] OTHER -> b \o <<T2(0, 0, 2), leg(8), leg(64), T2(0, 0, 2), tb(64), tb(512)>>
Code6(za, code) ==
    LET p(law) == T1(8 * za, 8, 0, law, Line(8)) IN
    CASE code = 11 -> <<p(1), T2(1, 2, 2), Lst(0, 8, 0, 1, 2, <<0, 8, 4, 8, 8, 4>>), Lst(0, 512, 0, 0, 2, <<0, 8, 8, 8>>)>>
      [] code = 12 -> <<p(1), T2(2, 2, 2), Lst(0, 8, 0, 1, 2, <<0, 8, 4, 8, 8, 4>>), Lst(0, 512, 0, 2, 2, <<0, 8, 4, 8, 8, 8, 4, 8>>)>>
      [] code = 13 -> <<p(1), T2(12, 2, 1), Lst(0, 8, 0, 4, 1, <<0, 8, -8, 4, 8, 4>>)>>
      [] code = 20 -> <<p(2), T2(0, 0, 2), Lst(0, 8, 0, 0, 2, <<4, 2>>), Lst(0, 512, 0, 0, 1, <<4>>)>>
      [] code = 22 -> <<p(2), T2(0, 0, 1), Lst(0, 8, 12, 0, 2, <<-8, 4, 8, 4>>)>>
      [] code = 24 -> <<p(2), T2(0, 0, 1), Lst(0, 8, 14, 0, 2, <<-8, 4, 8, 4>>)>>
      [] code = 5 -> <<p(5), T2(0, 0, 1), Lst(0, 8, 1, 0, 1, <<4, 4, 4>>)>>
      [] code = 6 -> <<p(6), Cont(16, 0, 0, 0, 0, 3)>>
      [] code = 7 -> <<p(7), T2(0, 0, 1), Rec(<<0, 8>>, <<0, 0, 1, 2>>, <<<<2, 2>>>>, <<>>), T1(0, -8, 0, 0, <<0, 8, 8, 8>>), T1(0, 8, 0, 0, <<0, 8, 8, 8>>)>>
      [] OTHER -> <<p(code)>>
Codes == {0, 11, 12, 13, 20, 22, 24, 3, 4, 5, 6, 7}
Zas == <<1, 0, 1001, 2004, 26056, 92236>>
F6(laws) == <<Hd(0, 1, Len(laws), 0)>> \o Flat([i \in DOMAIN laws |-> Code6(Zas[i], laws[i])])
Sub(mf, mt, recs) == [mf |-> mf, mt |-> mt, recs |-> recs]

\* nubar: prompt 2, delayed 1/2, total 5/2
NuSec(mt, form, v) == Sub(1, mt, <<Hd(0, IF form = "poly" THEN 1 ELSE 2, 0, 0)>> \o (IF form = "poly" THEN <<Lst(0, 0, 0, 0, 0, <<v>>)>> ELSE <<T1(0, 0, 0, 0, Line(v))>>))
Share(c, g) == IF c.groups = 1 THEN 8 ELSE IF g = 1 THEN 8 - (c.groups - 1) ELSE 1
F455(c) == Sub(1, 455, <<Hd(0, IF c.dlrep = "tab" THEN 2 ELSE 1, 0, 0), Lst(0, 0, 0, 0, 0, [g \in 1..c.groups |-> g])>>
               \o (IF c.dlrep = "tab" THEN <<T1(0, 0, 0, 0, Line(4))>> ELSE <<Lst(0, 0, 0, 0, 0, IF c.dlrep = "poly2" THEN <<4, 1>> ELSE <<4>>)>>))
D455(c) == Sub(5, 455, <<Hd(0, 0, c.groups, 0)>> \o Flat([g \in 1..c.groups |->
    IF c.vary = "vary" THEN <<T1(8, 0, 0, 1, <<8, Share(c, g), 256, Share(c, g), 512, Share(c, g) + (IF g = 1 THEN c.groups - 1 ELSE -1)>>)>> \o Tail(LawRecs(1, 8))
    ELSE LawRecs(1, Share(c, g))]))
Build(c) ==
    (IF c.nu = "none" THEN <<>> ELSE
       (IF c.nu \in {"total", "both"} THEN <<NuSec(452, c.nuform, 20)>> ELSE <<>>)
       \o (IF c.groups > 0 THEN <<F455(c)>> ELSE <<>>)
       \o (IF c.nu \in {"prompt", "both"} THEN <<NuSec(456, c.nuform, 16)>> ELSE <<>>))
    \o <<Sub(3, c.mt, <<Hd(0, 0, 0, 0), T1(0, -Awr, 0, 0, <<8, 16, 64, 16, 512, 64>>)>>)>>
    \o (IF c.part # 0 THEN <<Sub(3, c.part, <<Hd(0, 0, 0, 0), T1(0, 0, 0, 0, Line(8))>>)>> ELSE <<>>)
    \o (IF c.d \in {"4", "45"} THEN <<Sub(4, c.mt, F4(c.ltt, c.lvt))>> ELSE <<>>)
    \o (IF c.d \in {"5", "45"} THEN <<Sub(5, c.mt, F5(c.lfs))>> ELSE <<>>)
    \o (IF c.groups > 0 /\ c.vary # "no" THEN <<D455(c)>> ELSE <<>>)
    \o (IF c.d = "6" THEN <<Sub(6, c.mt, F6(c.laws))>> ELSE <<>>)
    \o (IF c.act = "none" THEN <<>> ELSE
        LET of(mf, za, lfs) == T1(0, 0, za, lfs, IF mf = 9 THEN Line(4) ELSE <<64, 8, 512, 16>>)
            st(mf, za, lfs) == Cont(8 * za, 0, mf, lfs, 0, 0)
            n == IF c.act = "both" THEN 4 ELSE 2 IN
        <<Sub(8, c.mt, <<Hd(0, 0, n, 1)>> \o (IF c.act # "10" THEN <<st(9, 26056, 0), st(9, 27060, 1)>> ELSE <<>>)
                                        \o (IF c.act # "9" THEN <<st(10, 1001, 0), st(10, 95242, 2)>> ELSE <<>>))>>
        \o (IF c.act # "10" THEN <<Sub(9, c.mt, <<Hd(0, 0, 2, 0), of(9, 26056, 0), of(9, 27060, 1)>>)>> ELSE <<>>)
        \o (IF c.act # "9" THEN <<Sub(10, c.mt, <<Hd(0, 0, 2, 0), of(10, 1001, 0), of(10, 95242, 2)>>)>> ELSE <<>>))
    \o (IF c.ph = "none" THEN <<>> ELSE
        IF c.ph = "arrays" THEN <<Sub(12, c.mt, <<Hd(2, 1, 2, 0), Lst(8, 0, 0, 0, 2, <<4, 8, 2, 8>>)>>)>> ELSE
        LET mf == IF c.ph \in {"12a", "12b"} THEN 12 ELSE 13
            n == IF c.ph \in {"12a", "13a"} THEN 1 ELSE 2 IN
        <<Sub(mf, c.mt, <<Hd(IF mf = 12 THEN 1 ELSE 0, 0, n, 0)>> \o (IF n > 1 THEN <<T1(0, 0, 0, 0, Line(16))>> ELSE <<>>)
           \o [i \in 1..n |-> T1(8 * i, 800, IF i = 2 THEN 1 ELSE 0, IF i = 2 THEN 2 ELSE 1, Line(8))])>>)

Plain == [mt |-> 102, part |-> 0, nu |-> "none", nuform |-> "tab", groups |-> 0, dlrep |-> "tab", vary |-> "no",
          d |-> "none", lfs |-> <<1>>, ltt |-> 1, lvt |-> 0, laws |-> <<0>>, act |-> "none", ph |-> "none"]
Lfs == {1, 5, 7, 9, 11, 12}
SeqsTo(A, n) == UNION {[1..k -> A] : k \in 1..n}
FissionChoices ==
    {[Plain EXCEPT !.mt = 18, !.part = p, !.nu = nu, !.nuform = f, !.groups = g, !.dlrep = d[1], !.vary = d[2], !.d = x, !.lfs = <<lf>>, !.laws = <<11, 0>>] :
        p \in {0, 19}, nu \in {"total", "prompt", "both"}, f \in {"tab", "poly"}, g \in GroupCounts,
        d \in (({"tab", "poly1"}) \X {"no", "const", "vary"}) \cup {<<"poly2", "no">>, <<"poly2", "const">>}, x \in {"5", "45", "6"}, lf \in {1, 11}}
OtherChoices ==
    {[Plain EXCEPT !.mt = m, !.d = "4", !.ltt = t, !.lvt = v] : m \in {2, 51, 90}, t \in 0..3, v \in 0..1}
    \cup {[Plain EXCEPT !.mt = 91, !.d = "45", !.ltt = t, !.lfs = l] : t \in 0..3, l \in SeqsTo(Lfs, MaxLfs)}
    \cup {[Plain EXCEPT !.mt = m, !.d = "6", !.laws = l, !.act = a, !.ph = ph] : m \in {16, 103}, l \in SeqsTo(Codes, MaxLaws),
             a \in {"none", "9", "10", "both"}, ph \in {"none", "13b"}}
    \cup {[Plain EXCEPT !.act = a, !.ph = ph] : a \in {"none", "9", "10", "both"}, ph \in {"none", "12a", "12b", "13a", "13b", "arrays"}}

Tape == Build(ch)
EInit == ch \in FissionChoices \cup OtherChoices /\ pos = 0
\* the reactions are read one after the other
ENext == pos < Len(Reactions(Tape)) /\ pos' = pos + 1 /\ ch' = ch
ESpec == EInit /\ [][ENext]_vars
Loaded == LET T == Tape IN [i \in 1..pos |-> Reaction(T, Reactions(T)[i], Awr, Emax)]

\* reading a section uses up its records
Consumed == pos = 0 => LET T == Tape IN \A i \in DOMAIN T :
    CASE T[i].mf = 4 -> Len4(T[i].recs) = Len(T[i].recs)
      [] T[i].mf = 5 -> LET s == Starts5(T[i].recs, 2, T[i].recs[1].n[3]) IN s[Len(s)] = Len(T[i].recs) + 1
      [] T[i].mf = 6 -> LET s == Starts6(T[i].recs, 2, T[i].recs[1].n[3]) IN s[Len(s)] = Len(T[i].recs) + 1
      [] OTHER -> TRUE
\* nothing is listed twice except neutrons and photons
OnceListed == \A i \in 1..pos : LET ps == Loaded[i].prods IN \A a, b \in DOMAIN ps :
    a < b /\ ps[a].part = ps[b].part => ps[a].part \in {"neutron", "photon"}
\* prompt and delayed neutrons add up to nubar
ValueOf(y, p) == IF y.k = "mul" THEN (NuAt(y.a, p) * At(y.t, p)) \div U ELSE NuAt(y, p)
RECURSIVE SumTo(_, _, _)
SumTo(ps, n, p) == IF n = 0 THEN 0 ELSE SumTo(ps, n - 1, p) + (IF ps[n].part = "neutron" THEN ValueOf(ps[n].y, p) ELSE 0)
Balance == (ch.nu # "none" /\ ch.vary # "no" /\ ch.groups > 0 /\ ch.dlrep # "poly2" /\ pos > 0) =>
    LET ps == Loaded[pos].prods IN \A p \in {8, 256, 512} :
        SumTo(ps, Len(ps), p) = (IF ch.nu = "total" THEN 24 ELSE 20) * S
\* every law of an emitted neutron has its share, and the shares add up
Shares == \A i \in 1..pos : \A j \in DOMAIN Loaded[i].prods : LET pr == Loaded[i].prods[j] IN
    pr.app # <<>> => Len(pr.app) = Len(pr.dist) /\ At(pr.app[1], 8) + (IF Len(pr.app) > 1 THEN At(pr.app[2], 8) ELSE 0) + (IF Len(pr.app) > 2 THEN At(pr.app[3], 8) ELSE 0) = U
\* partial fission emits like fission
PartialLike == (ch.part # 0 /\ pos = 2 /\ ch.d # "none") => Loaded[2].prods[1].dist = Loaded[1].prods[1].dist /\ (ch.d # "6" => Len(Loaded[2].prods) = Len(Loaded[1].prods))
Emit == pos = 0 => PrintT("CASE " \o ToJson(ch))
================================================================================

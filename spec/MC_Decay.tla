------------------------------- MODULE MC_Decay -------------------------------
(* Decay evaluations of all forms, read step by step; decays one after another *)
EXTENDS Decay, Json

CONSTANTS MaxSpectra, MaxModes
VARIABLES ch, pos
vars == <<ch, pos>>

Rec(c, n, r, v) == [c |-> c, n |-> n, r |-> r, v |-> v]
Lst(c1, c2, l1, l2, n2, v) == Rec(<<c1, c2>>, <<l1, l2, Len(v), n2>>, <<>>, v)
Up(n, x) == [i \in 1..n |-> x + (i * 1000)]
Rtyps == {1000, 2000, 3000, 4000, 5000, 6000, 7000, 10000, 1500, 1550, 2400, 2700, 2770, 1400, 3600, 1555}
Spectra == {[s |-> s, lcon |-> c, ner |-> n, nt |-> t, lcov |-> v] : s \in {0, 1, 2, 4, 5, 9, 10}, c \in 0..2, n \in 0..2, t \in {6, 8, 12}, v \in {0, 1}}
Proper(x) == /\ (x.s # 0 => x.nt = 6) /\ (x.lcon = 0 => x.lcov = 0) /\ (x.s = 0 => x.nt # 6 \/ x.lcon = 1)
             /\ (x.lcon = 1 => x.ner = 0 /\ x.nt = 6) /\ (x.lcon # 1 => x.ner > 0)
ModeRec(ms) == Lst(500, 1000, 0, 0, Len(ms), [i \in 1..(6 * Len(ms)) |-> LET m == ((i - 1) \div 6) + 1
                                                                             k == (i - 1) % 6 IN IF k = 0 THEN ms[m] ELSE IF k = 1 THEN 1000 * (m % 2) ELSE 10 * i])
LineOf(x, j) == Lst(j * 100, j, 0, 0, 0, <<1000, 1000 * j>> \o Up(x.nt - 2, j))
SpecRecs(x) == <<Lst(0, 1000 * x.s, x.lcon, 0, x.ner, Up(6, x.s))>> \o (IF x.lcon = 1 THEN <<>> ELSE [j \in 1..x.ner |-> LineOf(x, j)])
    \o (IF x.lcon = 0 THEN <<>> ELSE <<Rec(<<1000, 0>>, <<0, x.lcov, 1, 2>>, <<<<2, 2>>>>, <<0, 10, 1000, 20>>)>>)
    \o (IF x.lcov = 0 THEN <<>> ELSE <<Lst(0, 0, 0, 2, 2, <<0, 5, 1000, 6>>)>>)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Build(c) == LET h == Rec(<<92238000, 236000>>, <<0, c.iso, IF c.stable THEN 1 ELSE 0, IF c.stable THEN 0 ELSE Len(c.sp)>>, <<>>, <<>>) IN
    IF c.stable THEN <<h, Lst(0, 0, 0, 0, 0, Up(6, 0)), Lst(500, 1000, 0, 0, 0, Up(6, 0))>>
    ELSE <<h, Lst(3000, 10, 0, 0, 0, Up(2 * c.nc, 0)), ModeRec(c.modes)>> \o Flat([i \in DOMAIN c.sp |-> SpecRecs(c.sp[i])])
Good == {x \in Spectra : Proper(x)}
None == [stable |-> TRUE, iso |-> 0, nc |-> 3, modes |-> <<>>, sp |-> <<>>]
Choices ==
    {[None EXCEPT !.iso = m] : m \in 0..2}
    \cup {[stable |-> FALSE, iso |-> 0, nc |-> n, modes |-> ms, sp |-> <<>>] : n \in {3, 17}, ms \in UNION {[1..k -> Rtyps] : k \in 0..MaxModes}}
    \cup {[stable |-> FALSE, iso |-> 1, nc |-> 3, modes |-> <<1000>>, sp |-> s] : s \in {t \in UNION {[1..k -> Good] : k \in 1..MaxSpectra} : \A i, j \in DOMAIN t : i # j => t[i].s # t[j].s}}
Init == ch \in Choices /\ pos = ReadStart(Build(ch))
Next == ~ReadDone(pos) /\ pos' = ReadStep(Build(ch), pos) /\ UNCHANGED ch
Spec == Init /\ [][Next]_vars

\* reading ends exactly at the end, with a spectrum for each that was written
EndsAtTheEnd == ReadDone(pos) /\ ~ch.stable => pos.i = Len(Build(ch)) + 1
\* what has been read is what was written, in order
InOrder == \A i \in DOMAIN pos.out : LET x == ch.sp[i]
                                         o == pos.out[i] IN
    /\ o.type = Radiation(x.s) /\ o.flag = Flag(x.lcon) /\ Len(o.lines) = (IF x.lcon = 1 THEN 0 ELSE x.ner) /\ Len(o.cont) = (IF x.lcon = 0 THEN 0 ELSE 1)
    /\ \A j \in DOMAIN o.lines : o.lines[j].e[1] = 100 * j /\ (Len(o.lines[j].icc) > 0 <=> x.s = 0) /\ (Len(o.lines[j].k) > 0 <=> x.nt = 12)
    /\ \A j \in DOMAIN o.cont : (o.cont[j].cov # <<>> <=> x.lcov = 1)
\* charge and mass are conserved: what a chain of decays emits is what the daughter lacks
Emitted(k) == CASE k = 4 -> <<2, 4>> [] k = 5 -> <<0, 1>> [] k = 7 -> <<1, 1>> [] k = 1 -> <<-1, 0>> [] k = 2 -> <<1, 0>> [] OTHER -> <<0, 0>>
Conserved == \A i \in DOMAIN ch.modes : LET c == Codes(ch.modes[i]) IN
    Known(c) => Daughter(92, 238, c, 0) = Name(92 - SumOf(c, LAMBDA k : Emitted(k)[1]), 238 - SumOf(c, LAMBDA k : Emitted(k)[2]), 0)
\* a number says at least one thing, and things can be told apart
Told == \A i \in DOMAIN ch.modes : Len(Codes(ch.modes[i])) >= 1
Injective == \A a, b \in Rtyps : a # b => Codes(a) # Codes(b)
Emit == ReadDone(pos) => PrintT("CASE " \o ToJson(ch))
================================================================================

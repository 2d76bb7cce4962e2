--------------------------------- MODULE MC_Endf ---------------------------------
(* All small numbers in all their spellings, all small records, all small tapes. *)
EXTENDS Endf, TLC, Json
CONSTANTS Kinds, MaxVals, MaxMats, MaxSecs, MaxLines
VARIABLES case, state, pos
evars == <<case, state, pos>>

\* ---- numbers: digits, point, exponent in the format's spellings
Code(d) == 48 + d
Pad(s, left) == LET b == [i \in 1..(11 - Len(s)) |-> Blank] IN IF left THEN s \o b ELSE b \o s
Sign(x) == IF x = "-" THEN <<Minus>> ELSE IF x = "+" THEN <<Plus>> ELSE <<>>
ExpOf(c) ==
    LET n == IF c.e < 0 THEN -c.e ELSE c.e
        ds == IF n < 10 /\ c.two THEN <<Code(0), Code(n)>> ELSE IF n < 10 THEN <<Code(n)>> ELSE <<Code(n \div 10), Code(n % 10)>>
        sg == IF c.e < 0 THEN <<Minus>> ELSE <<Plus>> IN
    CASE c.style = "bare" -> sg \o ds
      [] c.style = "E" -> <<69>> \o sg \o ds
      [] c.style = "e" -> <<101>> \o sg \o ds
      [] OTHER -> <<>>
Spell(c) == Pad(Sign(c.sign) \o [i \in DOMAIN c.int |-> Code(c.int[i])] \o <<Point>> \o [i \in DOMAIN c.frac |-> Code(c.frac[i])] \o ExpOf(c), c.left)
RECURSIVE Val(_, _)
Val(s, acc) == IF s = <<>> THEN acc ELSE Val(Tail(s), 10 * acc + Head(s))
Value(c) == Norm(c.sign = "-", Val(c.int \o c.frac, 0), (IF c.style = "none" THEN 0 ELSE c.e) - Len(c.frac))
Numbers == {c \in [kind : {"num"}, sign : {"", "-", "+"}, int : {<<>>, <<0>>, <<1>>, <<7, 2>>}, frac : {<<0>>, <<5>>, <<2, 5>>, <<0, 4, 0>>, <<9, 9, 7, 4, 6, 1>>},
                  style : {"bare", "E", "e", "none"}, e : {-11, -5, 0, 1, 3, 10}, two : BOOLEAN, left : BOOLEAN] :
              /\ (c.style = "none" => c.e = 0 /\ ~c.two)
              /\ (c.two => c.e \in 0..3 \/ c.e = -5)
              /\ Len(c.int) + Len(c.frac) <= 7
              /\ Len(Sign(c.sign) \o c.int \o <<0>> \o c.frac \o ExpOf(c)) <= 11}

\* ---- records: counts only; the driver fills in values
Records == [kind : {"rec"}, rec : {"list", "tab1", "tab2", "cont", "head"}, nr : 0..7, n : 0..MaxVals]
Wanted(c) == CASE c.rec \in {"cont", "head"} -> c.nr = 0 /\ c.n = 0
               [] c.rec = "list" -> c.nr = 0
               [] c.rec = "tab2" -> c.n = 0 /\ c.nr > 0
               [] OTHER -> c.nr > 0 /\ c.n > 0
\* laying the values 1, 2, ... out on lines and reading them back
F(v) == Pad(IF v < 10 THEN <<Code(v)>> ELSE <<Code(v \div 10), Code(v % 10)>>, FALSE)
Sheet(vals) == [r \in 1..Ceil(Len(vals), 6) |-> [k \in 1..6 |-> IF 6 * (r - 1) + k <= Len(vals) THEN F(vals[6 * (r - 1) + k]) ELSE Pad(<<>>, TRUE)]]
Iota(n) == [i \in 1..n |-> i]
Lay(c) ==
    LET hd(n1, n2) == <<<<F(1), F(2), F(3), F(4), F(n1), F(n2)>>>> IN
    CASE c.rec = "list" -> hd(c.n, 9) \o Sheet(Iota(c.n))
      [] c.rec = "tab1" -> hd(c.nr, c.n) \o Sheet(Iota(2 * c.nr)) \o Sheet(Iota(2 * c.n))
      [] c.rec = "tab2" -> hd(c.nr, 5) \o Sheet(Iota(2 * c.nr))
      [] OTHER -> hd(8, 9)
ReadsBack(c) ==
    LET r == ReadRecord(c.rec, Lay(c))
        R(n) == [i \in 1..n |-> Strip(i, 0)] IN
    /\ r.used = Len(Lay(c))
    /\ SubSeq(r.re, 1, 2) = R(2)
    /\ (c.rec = "list" => SubSeq(r.re, 3, Len(r.re)) = R(c.n))
    /\ (c.rec = "tab1" => SubSeq(r.re, 3, Len(r.re)) = R(2 * c.n) /\ r.in = <<3, 4>> \o Iota(2 * c.nr))
    /\ (c.rec = "tab2" => r.in = <<3, 4, c.nr, 5>> \o Iota(2 * c.nr))

\* ---- tapes
Seqs(S, n) == UNION {[1..k -> S] : k \in 1..n}
Tapes == {[kind |-> "tape", mats |-> m] : m \in Seqs(Seqs([mf : {3, 4}, n : 1..MaxLines], MaxSecs), MaxMats)}
Ln(mat, mf, mt, txt) == [mat |-> mat, mf |-> mf, mt |-> mt, txt |-> txt]
RECURSIVE Body(_, _, _)
Body(mat, secs, i) ==
    IF i > Len(secs) THEN <<>>
    ELSE [k \in 1..secs[i].n |-> Ln(mat, secs[i].mf, i, <<mat, i, k>>)] \o <<Ln(mat, secs[i].mf, 0, <<>>)>>
         \o (IF i < Len(secs) /\ secs[i + 1].mf # secs[i].mf THEN <<Ln(mat, 0, 0, <<>>)>> ELSE <<>>) \o Body(mat, secs, i + 1)
RECURSIVE Mats(_, _)
Mats(m, i) == IF i > Len(m) THEN <<>> ELSE Body(100 + i, m[i], 1) \o <<Ln(100 + i, 0, 0, <<>>), Ln(0, 0, 0, <<>>)>> \o Mats(m, i + 1)
Tape(c) == <<Ln(1, 0, 0, <<>>)>> \o Mats(c.mats, 1) \o <<Ln(-1, 0, 0, <<>>)>>
Declared(c) == [i \in DOMAIN c.mats |-> [mat |-> 100 + i, secs |-> [j \in DOMAIN c.mats[i] |->
                 [k |-> <<c.mats[i][j].mf, j>>, ls |-> [n \in 1..c.mats[i][j].n |-> <<100 + i, j, n>>]]]]]

Cases == (IF "num" \in Kinds THEN Numbers ELSE {}) \cup (IF "rec" \in Kinds THEN {c \in Records : Wanted(c)} ELSE {}) \cup (IF "tape" \in Kinds THEN Tapes ELSE {})
Init == case \in Cases /\ state = Start /\ pos = 0
Next == /\ case.kind = "tape" /\ pos < Len(Tape(case))
        /\ pos' = pos + 1 /\ state' = Reader(state, Tape(case)[pos']) /\ UNCHANGED case
Spec == Init /\ [][Next]_evars /\ WF_evars(Next)

SpellingsAgree == case.kind = "num" => RealOf(Spell(case)) = Value(case)
RecordsReadBack == case.kind = "rec" => ReadsBack(case)
\* the reader ends exactly at the tape's end and yields what was declared, and no material before its end record
TapeRead == case.kind = "tape" /\ pos = Len(Tape(case)) => state.phase = "end" /\ state.out = Declared(case)
NoEarly == case.kind = "tape" => \A i \in DOMAIN state.out : state.out[i] = Declared(case)[i]
Ends == <>(case.kind # "tape" \/ state.phase = "end")
Emit == pos = 0 => PrintT("CASE " \o ToJson(IF case.kind = "num" THEN [kind |-> "num", f |-> Spell(case)] ELSE case))
==================================================================================

---------------------------------- MODULE Endf ----------------------------------
(* ENDF-6 tapes: numbers in 11 columns, records over lines of six fields, and    *)
(* the sections and materials of a tape.  Characters are their codes.            *)
EXTENDS Integers, Sequences, FiniteSets

Blank == 32
Plus == 43
Minus == 45
Point == 46
IsDigit(c) == c \in 48..57
RECURSIVE DropBlanks(_), Digits(_, _), Strip(_, _), DropLast(_)
DropBlanks(f) == IF f = <<>> \/ Head(f) # Blank THEN f ELSE DropBlanks(Tail(f))
DropLast(f) == IF f = <<>> \/ f[Len(f)] # Blank THEN f ELSE DropLast(SubSeq(f, 1, Len(f) - 1))
Trim(f) == DropLast(DropBlanks(f))
Digits(s, acc) == IF s = <<>> THEN acc ELSE Digits(Tail(s), acc * 10 + Head(s) - 48)
\* a real is <<m, e>> for m * 10^e, with m free of trailing zeros
Strip(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF m % 10 = 0 THEN Strip(m \div 10, e + 1) ELSE <<m, e>>
Norm(neg, m, e) == LET r == Strip(m, e) IN <<IF neg THEN -r[1] ELSE r[1], r[2]>>

\* where the exponent starts: a letter, or a sign that is not the first character
ExpAt(s) == LET S == {i \in 2..Len(s) : s[i] \in {69, 101, Plus, Minus}} IN
            IF S = {} THEN Len(s) + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
SignedInt(s) == IF s = <<>> THEN 0 ELSE IF Head(s) \in {Plus, Minus}
                THEN (IF Head(s) = Minus THEN -1 ELSE 1) * Digits(Tail(s), 0) ELSE Digits(s, 0)
RealOf(f) ==
    LET s == Trim(f)
        k == ExpAt(s)
        man == SubSeq(s, 1, k - 1)
        ex == SubSeq(s, k, Len(s))
        e == SignedInt(IF ex # <<>> /\ Head(ex) \in {69, 101} THEN Tail(ex) ELSE ex)
        neg == man # <<>> /\ Head(man) = Minus
        body == IF man # <<>> /\ Head(man) \in {Plus, Minus} THEN Tail(man) ELSE man
        P == {i \in DOMAIN body : body[i] = Point}
        p == IF P = {} THEN Len(body) + 1 ELSE CHOOSE i \in P : TRUE
        frac == SubSeq(body, p + 1, Len(body)) IN
    Norm(neg, Digits(frac, Digits(SubSeq(body, 1, p - 1), 0)), e - Len(frac))
IntOf(f) == SignedInt(Trim(f))

(***************************************************************************)
(* Records.  A line is six fields.                                         *)
(***************************************************************************)
Ceil(n, k) == (n + k - 1) \div k
\* a record without values still has one (blank) line of them
LinesFor(n, k) == IF n = 0 THEN 1 ELSE Ceil(n, k)
FieldAt(lines, i) == lines[1 + ((i - 1) \div 6)][1 + ((i - 1) % 6)]
Head6(l) == <<RealOf(l[1]), RealOf(l[2])>>
Ints4(l) == <<IntOf(l[3]), IntOf(l[4]), IntOf(l[5]), IntOf(l[6])>>
\* what reading a record of a kind yields: reals, integers, lines used
ReadCont(lines) == [re |-> Head6(lines[1]), in |-> Ints4(lines[1]), used |-> 1]
ReadList(lines) ==
    LET n == IntOf(lines[1][5])
        rest == Tail(lines) IN
    [re |-> Head6(lines[1]) \o [i \in 1..n |-> RealOf(FieldAt(rest, i))], in |-> Ints4(lines[1]), used |-> 1 + Ceil(n, 6)]
ReadTab1(lines) ==
    LET nr == IntOf(lines[1][5])
        np == IntOf(lines[1][6])
        a == Ceil(nr, 3)
        reg == SubSeq(lines, 2, 1 + a)
        pts == SubSeq(lines, 2 + a, Len(lines)) IN
    [re |-> Head6(lines[1]) \o [i \in 1..2 * np |-> RealOf(FieldAt(pts, i))],
     in |-> SubSeq(Ints4(lines[1]), 1, 2) \o [i \in 1..2 * nr |-> IntOf(FieldAt(reg, i))],
     used |-> 1 + a + Ceil(np, 3)]
ReadTab2(lines) ==
    LET nr == IntOf(lines[1][5])
        reg == Tail(lines) IN
    [re |-> Head6(lines[1]), in |-> Ints4(lines[1]) \o [i \in 1..2 * nr |-> IntOf(FieldAt(reg, i))], used |-> 1 + Ceil(nr, 3)]
ReadRecord(kind, lines) ==
    CASE kind \in {"cont", "head"} -> ReadCont(lines)
      [] kind = "list" -> ReadList(lines)
      [] kind = "tab1" -> ReadTab1(lines)
      [] kind = "tab2" -> ReadTab2(lines)

\* the compact correlation record: lines of row, column, elements; in units of half 10^-digits
Elem(v) == IF v > 0 THEN 2 * v + 1 ELSE IF v < 0 THEN 2 * v - 1 ELSE 0
CorrAt(n, d, rows, i, j) ==
    IF i = j THEN 2 * 10 ^ d
    ELSE LET a == IF i > j THEN i ELSE j
             b == IF i > j THEN j ELSE i
             S == {r \in DOMAIN rows : rows[r].i = a /\ rows[r].j <= b /\ b < rows[r].j + Len(rows[r].v)} IN
         IF S = {} THEN 0 ELSE LET r == rows[CHOOSE r \in S : TRUE] IN Elem(r.v[b - r.j + 1])
Correlations(n, d, rows) == [i \in 1..n |-> [j \in 1..n |-> CorrAt(n, d, rows, i, j)]]

(***************************************************************************)
(* Tapes: lines [mat, mf, mt, txt]                                         *)
(***************************************************************************)
Start == [phase |-> "between", mat |-> 0, key |-> <<0, 0>>, acc |-> <<>>, secs |-> <<>>, out |-> <<>>]
Reader(s, ln) ==
    CASE s.phase = "between" ->
            IF ln.mat = -1 THEN [s EXCEPT !.phase = "end"]
            ELSE IF ln.mf = 0 THEN s
            ELSE [s EXCEPT !.phase = "section", !.mat = ln.mat, !.key = <<ln.mf, ln.mt>>, !.acc = <<ln.txt>>, !.secs = <<>>]
      [] s.phase = "section" ->
            IF ln.mt = 0 THEN [s EXCEPT !.phase = "seek", !.secs = Append(@, [k |-> s.key, ls |-> s.acc]), !.acc = <<>>]
            ELSE [s EXCEPT !.acc = Append(@, ln.txt)]
      [] s.phase = "seek" ->
            IF ln.mt > 0 THEN [s EXCEPT !.phase = "section", !.key = <<ln.mf, ln.mt>>, !.acc = <<ln.txt>>]
            ELSE IF ln.mat = 0 THEN [s EXCEPT !.phase = "between", !.out = Append(@, [mat |-> s.mat, secs |-> s.secs])]
            ELSE s
      [] OTHER -> s
RECURSIVE ReadTape(_, _)
ReadTape(s, lines) == IF lines = <<>> THEN s ELSE ReadTape(Reader(s, Head(lines)), Tail(lines))
Evaluations(lines) == ReadTape(Start, lines).out
=================================================================================

------------------------------- MODULE Trace_Endf -------------------------------
(* Judges what the ENDF readers returned for the fields, records and tapes given. *)
EXTENDS Verdict
VARIABLES l
E == INSTANCE Endf

JudgeNum(e) == IF e.exc # "" THEN {"a number is refused"} ELSE Must("a number is read as another value", e.v = E!RealOf(e.f))

JudgeRec(e) ==
    IF e.exc # "" THEN {"a record is refused"} ELSE
    LET r == E!ReadRecord(e.kind, e.lines) IN UNION {
    Must("the reals of a record", e.re = r.re),
    Must("the integers of a record", e.in = r.in),
    Must("a record ends at another line", e.used = r.used)}

JudgeText(e) == Must("a text record", e.exc = "" /\ e.got = SubSeq(e.line, 1, 66))

JudgeIntg(e) ==
    IF e.exc # "" THEN {"a record is refused"} ELSE UNION {
    Must("a correlation of a compact record", e.c = E!Correlations(e.n, e.d, e.rows)),
    Must("a record ends at another line", e.used = 1 + Len(e.rows))}

Libraries == (0 :> "ENDF/B") @@ (1 :> "ENDF/A") @@ (2 :> "JEFF") @@ (6 :> "JENDL") @@ (33 :> "FENDL")
Line4(h, i) == E!ReadCont(<<h.cards[i]>>)
Whole(x) == x[1] * 10 ^ x[2]
JudgeHeader(h, g) ==
    LET a == Line4(h, 1)
        b == Line4(h, 2)
        c == Line4(h, 3)
        d == Line4(h, 4)
        za == Whole(a.re[1])
        txt(i, p, q) == SubSeq(h.text[i], p, q) IN UNION {
    Must("the nuclide", g.z = za \div 1000 /\ g.a = za % 1000),
    Must("the mass", g.mass = a.re[2]),
    Must("fissionable", g.fissionable = (a.in[2] = 1)),
    Must("the library", g.lib = (IF a.in[3] \in DOMAIN Libraries THEN Libraries[a.in[3]] ELSE "Unknown") /\ g.version = c.in[4] /\ g.release = c.in[1]),
    Must("the modification", g.modification = a.in[4]),
    Must("the excitation energy", g.elis = b.re[1]),
    Must("stability", g.stable = (b.re[2] = <<0, 0>>)),
    Must("the state", g.liso = b.in[2] /\ g.lis = (IF za = 95242 /\ b.in[2] = 1 THEN 2 ELSE b.in[1])),
    Must("the format", g.format = b.in[4]),
    Must("the projectile", g.awi = c.re[1]),
    Must("the energy limit", g.emax = c.re[2]),
    Must("the sublibrary", g.nsub \in {-1, c.in[3]}),
    Must("the temperature", g.temp = d.re[1]),
    Must("derived", g.derived = (d.in[1] > 0)),
    Must("the description", Len(h.text) < 5 \/ (
        /\ g.zsymam = txt(1, 1, 11) /\ g.lab = txt(1, 12, 22) /\ g.date = txt(1, 23, 32) /\ g.author = txt(1, 33, 66)
        /\ g.ref = txt(2, 2, 22) /\ g.ddist = txt(2, 23, 32) /\ g.drel = txt(2, 34, 43) /\ g.dent = txt(2, 56, 63)
        /\ g.ident = [i \in 1..3 |-> txt(i + 2, 1, 66)] /\ g.descr = [i \in 1..(Len(h.text) - 5) |-> txt(i + 5, 1, 66)])),
    Must("the directory of sections", g.dir = h.dir)}

AsSecs(ev) == [k \in {s.k : s \in Range(ev.secs)} |-> (CHOOSE s \in Range(ev.secs) : s.k = k).ls]
JudgeTape(e) ==
    IF e.exc # "" THEN {"a tape is refused"} ELSE
    LET want == E!Evaluations(e.lines)
        n == IF e.how = "all" THEN Len(want) ELSE 1 IN
    IF Len(e.got) # n THEN {"not one evaluation for each material"} ELSE UNION {
    Must("the material number", \A i \in 1..n : e.got[i].mat = want[i].mat),
    Must("the sections of a material", \A i \in 1..n : AsSecs(e.got[i]) = AsSecs(want[i])),
    Must("the position after a material", e.after),
    UNION {JudgeHeader(e.hdr[i], e.got[i].h) : i \in 1..n}}

Judge(e) ==
    CASE e.ev = "num" -> JudgeNum(e)
      [] e.ev = "rec" -> JudgeRec(e)
      [] e.ev = "text" -> JudgeText(e)
      [] e.ev = "intg" -> JudgeIntg(e)
      [] e.ev = "tape" -> JudgeTape(e)
      [] OTHER -> {"unknown event"}

TraceInit == l = 0
TraceNext == l < Len(Trace) /\ l' = l + 1 /\ Report(l + 1, Judge(Trace[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
=================================================================================

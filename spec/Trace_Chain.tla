------------------------------ MODULE Trace_Chain ------------------------------
(* Judges recorded runs of the covariance chain with programs that fail as        *)
(* planned.  st: the run under way, what the programs were asked, and what the     *)
(* output folder held before the run.                                              *)
EXTENDS Verdict
VARIABLES l, st
Ch == INSTANCE Chain WITH Requests <- {}, MaxRuns <- 0, Clears <- TRUE, AnyOrder <- TRUE,
        fs <- <<>>, run <- 0, req <- 0, plan <- 0, pc <- "", todo <- {}, at <- 0, hist <- <<>>

C(k, r, t, m) == [k |-> k, r |-> r, t |-> t, m |-> m]
NoRun == [r |-> 0, mat |-> 0, cover |-> <<>>, rest |-> <<>>, mts |-> <<>>, temp |-> TRUE, k |-> "ok"]
Fresh0 == [q |-> NoRun, njoy |-> 0, box |-> <<>>, out |-> <<>>]

OutMap(o) == [n \in {o[i].name : i \in DOMAIN o} |-> o[CHOOSE i \in DOMAIN o : o[i].name = n]]
Name(t, m) == t.name \o "_" \o ToString(m) \o "_matrix.txt"
Wanted(q) == [i \in 1..(Len(q.cover) * Len(q.mts)) |->
    <<q.cover[((i - 1) \div Len(q.mts)) + 1].n, Ch!Converter(q.mts[((i - 1) % Len(q.mts)) + 1])>>]
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Hurt(q) == q.k # "ok" /\ ~(q.k = "nlost" /\ q.mts = <<>>)

Owed(q) ==      \* name -> what it must hold
    LET M == {<<i, j>> : i \in DOMAIN q.cover, j \in DOMAIN q.mts}
    IN ("njoy_output.txt" :> C("listing", q.r, 0, 0))
       @@ [n \in {q.cover[i].name : i \in DOMAIN q.cover} |-> C("tape", q.r, q.cover[CHOOSE i \in DOMAIN q.cover : q.cover[i].name = n].n, 0)]
       @@ [n \in {q.rest[i].name : i \in DOMAIN q.rest} |-> C("tape", q.r, q.rest[CHOOSE i \in DOMAIN q.rest : q.rest[i].name = n].n, 0)]
       @@ [n \in {Name(q.cover[p[1]], q.mts[p[2]]) : p \in M} |->
            LET p == CHOOSE p \in M : Name(q.cover[p[1]], q.mts[p[2]]) = n
            IN C("matrix", q.r, q.cover[p[1]].n, Ch!Converter(q.mts[p[2]]))]

JudgeNjoy(e, s) == UNION {
    Must("the processing code is run more than once", s.njoy = 0),
    Must("the processing code is run after the converter", s.box = <<>>),
    Must("the processing code does not get the evaluation given", e.endf = s.q.r),
    Must("programs do not run in the folder asked for", (e.where = "out") = ~s.q.temp)}

JudgeBoxer(e, s) == UNION {
    Must("the converter is run before the processing code", s.njoy = 1),
    Must("the converter does not get a tape of this run", e.c.k = "tape" /\ e.c.r = s.q.r),
    Must("programs do not run in the folder asked for", (e.where = "out") = ~s.q.temp),
    Must("the converter is asked for other data than groups, cross sections, deviations and covariance of one reaction",
         e.reqs # <<>> /\ LET m == e.reqs[1][3] IN e.reqs = [i \in 1..4 |-> <<i - 1, s.q.mat, m, s.q.mat, m>>]),
    IF e.reqs = <<>> THEN {} ELSE
        LET p == <<e.c.t, e.reqs[1][3]>> IN Must("the converter is run for a tape and reaction that is not owed", Count(s.box, p) < Count(Wanted(s.q), p))}

JudgeEnd(e, s) ==
    LET q == s.q
        owed == Owed(q)
        now == OutMap(e.out)
        new == {n \in DOMAIN now : n \notin DOMAIN s.out \/ s.out[n].c # now[n].c}
        ok == ~e.dead /\ e.exc = "" IN UNION {
    Must("a failure is not reported", ~Hurt(q) \/ e.dead \/ e.exc # ""),
    Must("the chain failed although no program did", Hurt(q) \/ ok),
    Must("the processing code is not run once", ~ok \/ s.njoy = 1),
    Must("the converter is not run once for each tape and reaction", ~ok \/ \A i \in DOMAIN Wanted(q) : Count(s.box, Wanted(q)[i]) = Count(Wanted(q), Wanted(q)[i])),
    Must("a file that is owed is missing", ~ok \/ q.k # "ok" \/ DOMAIN owed \subseteq DOMAIN now),
    Must("a file that is owed does not hold its own data", ~ok \/ q.k # "ok" \/ \A n \in DOMAIN owed \cap DOMAIN now : now[n].c = owed[n]),
    Must("data of another step or run is saved under a name", \A n \in new : n \in DOMAIN owed => now[n].c = owed[n]),
    Must("a matrix that nobody asked for is saved", \A n \in new : now[n].mx => n \in DOMAIN owed),
    Must("intermediate files are left in the output folder", ~q.temp \/ \A n \in new : now[n].c.k \in {"tape", "matrix", "listing", "endf", "partial", "folder"} => n \in DOMAIN owed),
    Must("a file of an earlier run was removed", \A n \in DOMAIN s.out : s.out[n].c.k \in {"matrix", "listing"} /\ (s.out[n].mx \/ n = "njoy_output.txt") => n \in DOMAIN now),
    Must("the temporary folder is left behind", e.left = <<>>)}

Judge(e, s) ==
    CASE e.ev = "start" -> {}
      [] e.ev = "run" -> {}
      [] e.ev = "njoy" -> JudgeNjoy(e, s)
      [] e.ev = "boxer" -> JudgeBoxer(e, s)
      [] e.ev = "end" -> JudgeEnd(e, s)
      [] OTHER -> {"unknown event"}
After(e, s) ==
    CASE e.ev = "start" -> Fresh0
      [] e.ev = "run" -> [s EXCEPT !.q = [x \in DOMAIN NoRun |-> e[x]], !.njoy = 0, !.box = <<>>]
      [] e.ev = "njoy" -> [s EXCEPT !.njoy = @ + 1]
      [] e.ev = "boxer" -> [s EXCEPT !.box = Append(@, <<e.c.t, IF e.reqs = <<>> THEN 0 ELSE e.reqs[1][3]>>)]
      [] e.ev = "end" -> [s EXCEPT !.out = OutMap(e.out)]
      [] OTHER -> s

TraceInit == l = 0 /\ st = Fresh0
TraceNext == LET e == Trace[l + 1] IN
    /\ l < Len(Trace) /\ l' = l + 1
    /\ Report(l + 1, Judge(e, st))
    /\ st' = After(e, st)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
================================================================================

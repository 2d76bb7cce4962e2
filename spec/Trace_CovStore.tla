---------------------------- MODULE Trace_CovStore ----------------------------
(* Judges recorded histories of the real covariance store.  st is what the     *)
(* store showed after the last event.                                          *)
EXTENDS Verdict
VARIABLES l, st
C == INSTANCE CovStore WITH Keys <- {}, Good <- {}, Bad <- {}, MaxOps <- 0, disk <- 0, mem <- 0, open <- 0, accepted <- 0, ops <- 0

AsMap(d) == [k \in {<<d[i].k, d[i].kind>> : i \in DOMAIN d} |-> d[CHOOSE i \in DOMAIN d : <<d[i].k, d[i].kind>> = k].f]

JudgeAdd(e, s) ==
    LET k == <<e.k, e.kind>>
        ok == C!Ok(e.kind, e.f)
        now == AsMap(e.dump) IN UNION {
    Must("a well-formed frame was refused", ~ok \/ e.exc = ""),
    Must("a malformed frame was accepted", ok \/ e.exc # ""),
    Must("a refused frame changed the store", ok \/ now = s),
    Must("the entry is not the frame added", ~ok \/ (k \in DOMAIN now /\ now[k] = e.f)),
    Must("another entry changed, appeared or disappeared", ~ok \/ now = C!Put(s, k, IF k \in DOMAIN now THEN now[k] ELSE 0)),
    Must("the caller's frame was changed", ~e.mutated)}

StoredRight(m, f, c) ==
    LET n == Len(m.x)
        g == 1..n IN
    IF Len(f.rows) # n \/ Len(c.d) # n THEN {"a matrix was not stored"} ELSE UNION {
    Must("the groups are not numbered 1 to n", f.rows = [i \in g |-> i] /\ c.rows = [i \in g |-> i] /\ c.cols = [i \in g |-> i]),
    Must("a group's limits are wrong", \A i \in g : f.high[i] = C!GroupRow(m, i).high /\ f.low[i] = C!GroupRow(m, i).low),
    Must("a group's cross section is wrong", \A i \in g : f.x[i] = C!GroupRow(m, i).x /\ f.x2[i] = f.x[i]),
    Must("a group's relative deviation is wrong", \A i \in g : Near(f.rel[i], C!GroupRow(m, i).rel, 1) /\ f.rel2[i] = f.rel[i]),
    Must("a group's deviation is wrong", \A i \in g : Near(f.sd[i], C!GroupRow(m, i).sd, 1) /\ f.sd2[i] = f.sd[i]),
    Must("the correlation matrix is not fit for sampling", C!FitForSampling(c.d)),
    Must("a correlation is not covariance over deviations", \A i, j \in g : C!CorrelationIs(m.cov, i, j, c.d[i][j]))}

JudgeProcess(e, s) ==
    LET ks == <<e.k, "std">>
        kc == <<e.k, "corr">>
        now == AsMap(e.dump) IN
    IF e.bad THEN UNION {Must("a matrix file in error raised instead of being skipped", e.exc = ""),
                         Must("a matrix file in error changed the store", now = s)}
    ELSE IF e.exc # "" \/ ~(ks \in DOMAIN now /\ kc \in DOMAIN now) THEN {"a matrix was not stored"}
    ELSE UNION {
    Must("another entry changed, appeared or disappeared", now = C!Put(C!Put(s, ks, now[ks]), kc, now[kc])),
    Must("the store is not the only file written", e.files = <<>>),
    StoredRight(e.m, now[ks], now[kc])}

\* the command: everything available, or what was asked for if all of it is available, plus nu and chi
Elems(q) == {q[i] : i \in DOMAIN q}
JudgeCli(e, s) ==
    LET now == AsMap(e.dump)
        refused == e.avail = <<>> \/ ~(Elems(e.ask) \subseteq Elems(e.avail))
        good == {i \in DOMAIN e.entries : ~e.entries[i].bad}
        new == {<<e.entries[i].k, x>> : i \in good, x \in {"std", "corr"}} IN
    IF refused \/ e.fault THEN UNION {
        Must("a request for reactions without covariances is not refused", ~refused \/ e.exc # ""),
        Must("a failure is not reported", refused \/ e.exc # ""),
        Must("a refused or failed command changed the store", now = s /\ Elems(e.stores) = (IF DOMAIN s = {} THEN {} ELSE {e.name}))}
    ELSE IF e.exc # "" THEN {"the command failed"}
    ELSE UNION {
        Must("the store does not have its name", Elems(e.stores) = (IF DOMAIN s = {} /\ good = {} THEN {} ELSE {e.name})),
        Must("the store does not hold exactly the reactions asked for", DOMAIN now = DOMAIN s \cup new),
        Must("another entry changed, appeared or disappeared", \A k \in (DOMAIN s \cap DOMAIN now) \ new : now[k] = s[k]),
        UNION {IF new \subseteq DOMAIN now THEN StoredRight(e.entries[i].m, now[<<e.entries[i].k, "std">>], now[<<e.entries[i].k, "corr">>]) ELSE {} : i \in good}}

JudgeLoad(e, s) ==
    LET ks == <<e.k, "std">>
        kc == <<e.k, "corr">> IN UNION {
    Must("loading changed the store", AsMap(e.dump) = s),
    IF ~(ks \in DOMAIN s /\ kc \in DOMAIN s) THEN Must("a reaction that is not in the store was loaded", e.exc # "")
    ELSE IF e.exc # "" THEN {"a stored reaction could not be loaded"}
    ELSE LET f == s[ks]
             c == s[kc]
             d == C!MaxDiag(c.d) \div 1000
             g == 1..Len(f.rows) IN UNION {
        Must("the limits of a group are not upper above lower as stored", e.std.high = C!LoadHigh(f) /\ e.std.low = C!LoadLow(f)),
        Must("loaded group data differ from the stored ones", e.std.rows = f.rows /\ e.std.x = f.x /\ e.std.x2 = f.x2 /\ e.std.rel = f.rel /\ e.std.rel2 = f.rel2 /\ e.std.sd = f.sd /\ e.std.sd2 = f.sd2),
        \* stored correlations are in millionths; so are the loaded ones
        Must("the loaded correlation is not scaled to unit diagonal", e.corr.rows = c.rows /\ e.corr.cols = c.cols /\ \A i, j \in g :
            Near(e.corr.d[i][j], IF e.fill /\ i = j THEN 1000000 ELSE (c.d[i][j] \div d) * 1000 + ((c.d[i][j] % d) * 1000) \div d, 2))}}

Judge(e, s) ==
    CASE e.ev = "start" -> Must("a new store is not empty", e.dump = <<>>)
      [] e.ev = "given" -> {}
      [] e.ev = "reopen" -> Must("closing and opening changed the store", AsMap(e.dump) = s)
      [] e.ev = "add" -> JudgeAdd(e, s)
      [] e.ev = "process" -> JudgeProcess(e, s)
      [] e.ev = "cli" -> JudgeCli(e, s)
      [] e.ev = "load" -> JudgeLoad(e, s)
      [] OTHER -> {"unknown event"}

TraceInit == l = 0 /\ st = AsMap(<<>>)
TraceNext == LET e == Trace[l + 1] IN
    /\ l < Len(Trace) /\ l' = l + 1
    /\ Report(l + 1, Judge(e, st))
    /\ st' = AsMap(e.dump)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
===============================================================================

---------------------------- MODULE Trace_EndfData ----------------------------
(* Judges what loading an evaluation yields by what its sections say.          *)
EXTENDS Verdict
VARIABLES l
E == INSTANCE EndfData

\* regions and laws of the tables as the records give them: n[3] is not used by the specification
Same(name, a, b) == Must(name, a = b)
LawOk(got, want) ==
    IF got.k # want.k THEN FALSE
    ELSE IF want.k = "level" THEN got.thr * want.a = (want.a + 1) * want.q /\ got.ratio * (want.a + 1) * (want.a + 1) = want.a * want.a * 4096
    ELSE got = want
Prop(got, want) == Len(got) = Len(want) /\ \A i \in DOMAIN got : got[i] * want[1] = want[i] * got[1]
DistOk(got, want) ==
    IF got.k # want.k THEN FALSE
    ELSE CASE want.k = "unc" -> LawOk(got.e, want.e) /\ got.a = want.a
      [] want.k = "corr" -> /\ got.r = want.r /\ got.e = want.e /\ Range(got.int) = {want.int} /\ got.x = want.x /\ got.p = want.p
                            /\ Len(got.mu) = Len(want.mu)
                            /\ \A i \in DOMAIN want.mu : Len(got.mu[i]) = Len(want.mu[i]) /\ \A j \in DOMAIN want.mu[i] : Prop(got.mu[i][j], want.mu[i][j])
      [] want.k = "km" -> /\ got.r = want.r /\ got.e = want.e /\ Range(got.int) = {want.int} /\ got.x = want.x /\ got.p = want.p
                          /\ got.pre = want.pre /\ got.px = want.x /\ got.sx = want.x
                          /\ \A i \in DOMAIN want.slope : want.slope[i] # <<>> => got.slope[i] = want.slope[i]
      [] OTHER -> got = want
SameTab(r, g) == g = E!Tab(r)
ProductJudge(got, want, pts) ==
    IF got.part # want.part THEN {"the product particle"}
    ELSE UNION {
    Must("the emission mode", got.mode = want.mode \/ want.part # "neutron"),
    Must("the decay rate", got.rate = want.rate),
    Must("the yield", \A i \in DOMAIN pts : E!YieldAt(want.y, pts[i]) =>
        ((want.y.k = "mul" /\ pts[i] \notin (E!Grid(want.y.t) \cup (IF want.y.a.k = "tab" THEN E!Grid(want.y.a.t) ELSE {}))) \/ E!YieldOk(want.y, pts[i], got.at[i]))),
    Must("where a distribution applies", Len(got.app) = Len(want.app) /\ \A i \in DOMAIN want.app : SameTab(want.app[i], got.app[i])),
    IF Len(got.dist) # Len(want.dist) THEN {"not one distribution for each law"}
    ELSE UNION {Must("a distribution: " \o want.dist[i].k, DistOk(got.dist[i], want.dist[i])) : i \in DOMAIN want.dist}}
ProductsJudge(got, want, pts) ==
    IF Len(got) # Len(want) THEN {"other products than the evaluation lists"}
    ELSE UNION {ProductJudge(got[i], want[i], pts) : i \in DOMAIN want}
ReactionJudge(got, want, pts) == UNION {
    Must("the Q value", got.q = want.q),
    Must("the cross section", got.xs = want.xs /\ Range(got.keys) = {"0K"}),
    ProductsJudge(got.prods, want.prods, pts),
    Must("derived products", ProductsJudge(got.derived, want.derived, pts) = {})}

JudgeLoad(e) ==
    IF e.exc # "" THEN {"an evaluation is refused"} ELSE
    LET g == e.got
        z == e.za \div 1000
        a == e.za % 1000
        mts == E!Reactions(e.secs) IN
    IF g.mts # mts THEN {"the reactions of the evaluation"} ELSE UNION {
    Must("the nuclide", g.z = z /\ g.a = a /\ g.m = e.liso /\ g.awr = e.awr /\ g.name = E!Nuclide(z, a) \o (IF e.liso > 0 THEN "_m" \o ToString(e.liso) ELSE "")),
    Must("the temperature", g.temps = <<ToString(e.temp) \o "K">>),
    UNION {ReactionJudge(g.rx[i], E!Reaction(e.secs, mts[i], e.awr, e.emax), e.pts) : i \in DOMAIN mts}}

Judge(e) ==
    CASE e.ev = "load" -> JudgeLoad(e)
      [] OTHER -> {"unknown event"}

TraceInit == l = 0
TraceNext == l < Len(Trace) /\ l' = l + 1 /\ Report(l + 1, Judge(Trace[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
=================================================================================

--------------------------- MODULE Trace_Resonance ---------------------------
(* Judges resonance parameters and covariances by what files 2 and 32 say.     *)
EXTENDS Verdict
VARIABLES l
R == INSTANCE Resonance

\* a radius at the points: a table is known at its own points
TabAt(r, p) == LET i == CHOOSE j \in 1..(Len(r.v) \div 2) : r.v[2 * j - 1] = p IN r.v[2 * i]
RadiusOk(want, got, pts) ==
    CASE want.k = "const" -> \A i \in DOMAIN pts : got.at[i] = want.v
      [] want.k = "tab" -> \A i \in DOMAIN pts : got.at[i] = TabAt(want.t, pts[i])
      \* 1000 A with the neutron's mass: 1.008665 u
      [] OTHER -> LET m == (100866 * want.a) \div 800 IN \A i \in DOMAIN pts : Near(got.cube[i], m, (m \div 2000) + 1)
RadiiOk(want, got, pts) == Len(want) = Len(got) /\ \A i \in DOMAIN want : RadiusOk(want[i], got[i], pts)
\* the last record of an angular momentum wins, and each is kept once
RangeJudge(g, w, pts) ==
    IF g.k # w.k THEN {"the formalism of a range"} ELSE
    Must("the energies of a range", g.lo = w.lo /\ g.hi = w.hi) \cup
    CASE w.k = "radius" -> Must("the spin", g.spin = w.spin) \cup Must("the channel radius", RadiiOk(w.chan, g.chan, pts)) \cup Must("the scattering radius", RadiiOk(w.scat, g.scat, pts))
      [] w.k \in {"slbw", "mlbw", "rm"} -> UNION {
            Must("the spin", g.spin = w.spin),
            Must("the angular momenta", g.ls = w.ls /\ Range(g.ls2) = Range(w.ls)),
            IF g.ls # w.ls THEN {} ELSE Must("the channel radius", RadiiOk(w.chan, g.chan, pts)) \cup Must("the scattering radius", RadiiOk(w.scat, g.scat, pts)),
            Must("the resonance parameters", g.rows = w.rows),
            Must("the competitive Q values", g.qx = w.qx),
            Must("the mass ratio", g.awri = w.awri),
            Must("angular distribution and convergence flags", g.extra = w.extra)}
      [] w.k = "rml" -> UNION {
            Must("the R-matrix flags", g.ifg = w.ifg /\ g.krm = w.krm),
            Must("the particle pairs", g.pairs = w.pairs),
            IF Len(g.groups) # Len(w.groups) THEN {"the spin groups"} ELSE UNION {UNION {
                Must("spin and parity of a group", g.groups[i].j = w.groups[i].j /\ g.groups[i].par = w.groups[i].par),
                Must("the channels of a group", g.groups[i].ch = w.groups[i].ch),
                Must("the widths of a group", g.groups[i].cols = w.groups[i].cols /\ g.groups[i].rows = w.groups[i].rows)} : i \in DOMAIN w.groups}}
      [] OTHER -> UNION {
            Must("the spin", g.spin = w.spin),
            Must("the scattering radius", RadiusOk(w.scat, g.scat, pts)),
            Must("whether file 3 adds to the unresolved range", g.bg = w.bg),
            Must("the unresolved parameters", g.es = w.es /\ g.tables = w.tables)}

\* the covariance as the upper triangle; below it is the same or nothing
CovJudge(g, w) == UNION {
    Must("the covariances' formalism and energies", g.k = w.k /\ g.lo = w.lo /\ g.hi = w.hi /\ g.lcomp = w.lcomp),
    Must("the resonances with covariances", g.rows = w.rows),
    Must("the number of uncertain parameters", g.mpar = w.mpar),
    Must("the size of the covariance matrix", g.dim = <<Len(w.cov), Len(w.cov)>>),
    Must("the covariances", g.den = w.den /\ g.low # "other" /\ Len(g.cov) = Len(w.cov)
        /\ \A a \in DOMAIN g.cov : \A b \in DOMAIN g.cov[a] : g.cov[a][b] = w.cov[a][a + b - 1])}

ResolvedOf(f2) == LET S == {i \in DOMAIN f2 : ~R!Unres(f2[i])} IN IF S = {} THEN 0 ELSE IF Cardinality(S) > 1 THEN -2 ELSE CHOOSE i \in S : TRUE
UnresolvedOf(f2) == LET S == {i \in DOMAIN f2 : R!Unres(f2[i])} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
JudgeLoad(e) ==
    IF e.exc # "" THEN {"resonance data are refused"} ELSE
    LET f2 == R!Ranges(e.two, e.awr)
        cv == IF e.thirtytwo = <<>> THEN <<>> ELSE R!CovRanges(e.thirtytwo, f2) IN
    (IF Len(e.got) # Len(f2) THEN {"the ranges of the evaluation"} ELSE UNION {RangeJudge(e.got[i], f2[i], e.pts) : i \in DOMAIN f2})
    \cup Must("which range is resolved or unresolved", e.resolved = ResolvedOf(f2) /\ e.unresolved = UnresolvedOf(f2))
    \cup Must("cross sections outside the resolved ranges", \A i \in DOMAIN e.xs : e.xs[i] = [j \in 1..4 |-> e.three[i].v[2 * j + 4]])
    \cup (IF Len(e.cov) # Len(cv) THEN {"the ranges with covariances"} ELSE UNION {CovJudge(e.cov[i], cv[i]) : i \in DOMAIN cv})

CovOf(e) == R!CovRanges(e.thirtytwo, R!Ranges(e.two, e.awr))[e.nth]
RECURSIVE Follow(_, _)
Follow(c, path) == IF path = <<>> THEN c ELSE Follow(R!Subset(c, path[1][1], path[1][2], path[1][3]), Tail(path))
JudgeSubset(e) ==
    IF e.exc # "" THEN {"a choice of resonances is refused"} ELSE
    LET c0 == CovOf(e)
        c == Follow(c0, e.path) IN
    CovJudge(e.got[1], c)
    \cup Must("the chosen resonances of file 2", Range(e.f2) = Range(c.rows) /\ Len(e.f2) = Len(c.rows))
    \cup Must("choosing changes the data chosen from", CovJudge(e.again[1], c0) = {} /\ e.whole[2] = e.whole[1])

\* hundredths
Hund(x, den) == IF den = 8 THEN (x * 100) \div 8 ELSE x \div (den \div 100)
Sq(x) == x * x
CovNear(got, want, va, vb) == IsNum(got) /\ Abs(got - want) <= 6000 /\ Sq(Max2(0, Abs(got - want) - 3)) * 30 <= va * vb
MeanNear(got, want, va) == IsNum(got) /\ Abs(got - want) <= 5000 /\ Sq(Max2(0, Abs(got - want) - 1)) * 40 <= va * 100
SumOk(k, r) == k = "rm" \/ Near(r[4], r[5] + r[6] + r[7] + r[8], 3)
KeptOk(c, r, j) ==
    LET vary == Range(R!Varied(c.k, c.mpar))
        all == IF c.k = "rm" THEN 1..7 ELSE {1, 2, 3, 5, 6, 7, 8} IN
    \A p \in all \ vary : IF p = 2 THEN r[2] = c.rows[j][2] ELSE Near(r[p], c.rows[j][p] * 1250, 1)
JudgeSample(e) ==
    IF e.exc # "" THEN {"resonances cannot be sampled"} ELSE
    LET c == Follow(CovOf(e), e.path)
        g == e.got[1]
        n == Len(c.cov)
        V == [a \in 1..n |-> Hund(c.cov[a][a], c.den)] IN
    IF Len(g.mean) # n THEN {"not every uncertain parameter is sampled"} ELSE UNION {
    Must("the number of samples", g.n = e.n),
    Must("what a sample is", g.kinds = <<c.k>> /\ g.lo = c.lo /\ g.hi = c.hi),
    Must("the mean of the samples", \A a \in 1..n : MeanNear(g.mean[a], Hund(R!MeanOf(c, a), 8), V[a])),
    Must("the covariance of the samples", \A a \in 1..n : \A b \in a..n : CovNear(g.cov[a][b], Hund(c.cov[a][b], c.den), V[a], V[b])),
    Must("a sampled total width is the sum", \A s \in DOMAIN g.some : Len(g.some[s]) = Len(c.rows) /\ \A j \in DOMAIN g.some[s] : SumOk(c.k, g.some[s][j])),
    Must("what is not uncertain is kept", \A s \in DOMAIN g.some : Len(g.some[s]) = Len(c.rows) /\ \A j \in DOMAIN g.some[s] : KeptOk(c, g.some[s][j], j))}

Judge(e) ==
    CASE e.ev = "load" -> JudgeLoad(e)
      [] e.ev = "subset" -> JudgeSubset(e)
      [] e.ev = "sample" -> JudgeSample(e)
      [] OTHER -> {"unknown event"}

TraceInit == l = 0
TraceNext == l < Len(Trace) /\ l' = l + 1 /\ Report(l + 1, Judge(Trace[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
=================================================================================

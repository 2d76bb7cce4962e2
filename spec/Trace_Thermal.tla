----------------------------- MODULE Trace_Thermal -----------------------------
(* Judges thermal scattering data by the words of the tables they come from.    *)
EXTENDS Verdict
VARIABLES l
T == INSTANCE Thermal

DistJudge(got, want) ==
    IF Len(got) # Len(want) THEN {"the number of continuous distributions"} ELSE UNION {
        Must("continuous outgoing energies", got[i].e = want[i].e /\ got[i].p = want[i].p /\ got[i].c = want[i].c /\ got[i].k = "linear-linear")
        \cup Must("cosines of continuous outgoing energies", got[i].mu = want[i].mu)
        \* every cosine is equally likely
        \cup Must("probabilities of cosines", Len(got[i].w) = Len(want[i].mu) /\ \A j \in DOMAIN got[i].w :
                LET n == Len(want[i].mu[j]) IN Len(got[i].w[j]) = n /\ \A k \in 1..n : Near(got[i].w[j][k][1] * n, 1000000, n) /\ Near(got[i].w[j][k][2] * n, k * 1000000, n)) : i \in DOMAIN want}
ElJudge(got, want) ==
    IF got.k # want.k THEN {"the kind of elastic scattering"} ELSE
    IF want.k = "none" THEN {} ELSE
    Must("elastic scattering", got.x = want.x /\ got.y = want.y)
    \cup (IF want.k = "bragg" THEN
            Must("coherent elastic cross sections", \A i \in DOMAIN got.pts : Near(got.at[i], T!FactorAt(want, got.pts[i], Len(want.x)), 2))
          ELSE Must("cosines of elastic scattering", got.mu = want.mu))
AtJudge(got, want) == UNION {
    Must("inelastic cross sections", got.xs = want.xs),
    Must("discrete outgoing energies", got.eout = want.eout),
    Must("cosines of outgoing energies", got.mu = want.mu),
    DistJudge(got.dist, want.dist),
    ElJudge(got.el, want.el)}
\* a material: mem says which table is at which temperature
MaterialJudge(g, mem, tabs, first) ==
    IF Range(g.temps) # DOMAIN mem.temps \/ Len(g.temps) # Cardinality(DOMAIN mem.temps) THEN {"the temperatures"} ELSE UNION {
    Must("the name", g.name = mem.name),
    Must("the mass", g.awr = tabs[first].awr),
    Must("the nuclides that scatter", g.nuc = T!Nuclides(tabs[first].pairs, <<>>)),
    Must("how outgoing energies are given", g.mode = T!Mode(tabs[first])),
    Must("the temperatures in eV", \A i \in DOMAIN g.temps : Near(g.tmk[i], tabs[mem.temps[g.temps[i]]].tmk, 20)),
    UNION {AtJudge(g.at[i], T!At(tabs[mem.temps[g.temps[i]]])) : i \in DOMAIN g.temps}}

\* a known name, a name given, or nothing is said of it
WantName(f) == IF f.given # "" THEN f.given ELSE T!NameOf(f.low)
JudgeTable(e) ==
    IF e.exc # "" THEN {"a table is refused"} ELSE
    MaterialJudge(e.got, [name |-> IF WantName(e.f) = "" THEN e.got.name ELSE WantName(e.f), temps |-> T!Put(T!Temp(e.f), 1)], <<e.f>>, 1)

Step(s, op, k, tabs) ==
    CASE op = "load" -> [s EXCEPT !.mem = T!LoadOf(tabs, k), !.first = k]
      [] op = "add" -> [s EXCEPT !.mem = T!AddOf(s.mem, tabs, k)]
      [] op = "export" -> [s EXCEPT !.file = s.mem, !.ffirst = s.first]
      [] OTHER -> [s EXCEPT !.mem = s.file, !.first = s.ffirst]
Expected(s, op, k, tabs) == IF op = "add" /\ T!Outcome(s.mem, tabs[k]) = "refused" THEN "ValueError" ELSE ""
RECURSIVE Steps(_, _, _)
Steps(s, e, i) ==
    IF i > Len(e.steps) THEN {} ELSE
    LET st == e.steps[i]
        n == Step(s, st.op, st.k, e.tabs) IN
    IF st.exc # Expected(s, st.op, st.k, e.tabs) THEN {IF st.exc = "" THEN "a table of another material is taken" ELSE "a step of the history fails"}
    ELSE LET j == MaterialJudge(st.got, n.mem, e.tabs, n.first) IN
         IF j # {} THEN {st.op \o ": " \o x : x \in j} ELSE Steps(n, e, i + 1)
JudgeHistory(e) == Steps([mem |-> T!Nothing, file |-> T!Nothing, first |-> 0, ffirst |-> 0], e, 1)
JudgeName(e) ==
    IF e.exc # "" THEN {"a name is refused"} ELSE
    Must("the name of a material", e.got \in (DOMAIN T!Known \cup {"c_" \o e.name})
        /\ (T!NameOf(e.low) # "" => e.got = T!NameOf(e.low)) /\ (e.name \in DOMAIN T!Known => e.got = e.name))

Judge(e) ==
    CASE e.ev = "table" -> JudgeTable(e)
      [] e.ev = "history" -> JudgeHistory(e)
      [] e.ev = "name" -> JudgeName(e)
      [] OTHER -> {"unknown event"}

TraceInit == l = 0
TraceNext == l < Len(Trace) /\ l' = l + 1 /\ Report(l + 1, Judge(Trace[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
=================================================================================

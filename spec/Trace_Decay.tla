------------------------------ MODULE Trace_Decay ------------------------------
(* Judges decay data and fission product yields by the records they come from.    *)
EXTENDS Verdict
VARIABLES l
D == INSTANCE Decay

LineJudge(got, want) == UNION {
    Must("energies of lines", got.e = want.e), Must("the decay a line comes from", got.from = want.from), Must("the type of transition", got.t = want.t),
    Must("intensities", got.i = want.i), Must("positron intensities", got.pos = want.pos), Must("pair formation", got.pair = want.pair),
    Must("internal conversion", got.icc = want.icc /\ got.k = want.k /\ got.l = want.l)}
SpecJudge(got, want) == UNION {
    Must("whether a spectrum is discrete", got.flag = want.flag),
    Must("normalisations", got.fd = want.fd /\ got.av = want.av /\ got.fc = want.fc),
    (IF Len(got.lines) # Len(want.lines) THEN {"the number of lines"} ELSE UNION {LineJudge(got.lines[i], want.lines[i]) : i \in DOMAIN want.lines}),
    IF Len(got.cont) # Len(want.cont) THEN {"a continuous spectrum"} ELSE UNION {
        Must("continuous spectrum", got.cont[i].tab = want.cont[i].tab) \cup Must("the decay a continuous spectrum comes from", got.cont[i].from = want.cont[i].from)
        \cup Must("covariance of a spectrum", got.cont[i].cov = want.cont[i].cov /\ got.cont[i].lb = want.cont[i].lb) : i \in DOMAIN want.cont}}
ModeJudge(got, want) == UNION {
    Must("what happens in a decay", got.modes = want.modes), Must("decay energy", got.q = want.q), Must("branching ratios", got.br = want.br),
    Must("the parent of a decay", got.parent = want.parent), Must("the daughter of a decay", want.known => got.to = want.to)}
DecayJudge(e) ==
    LET w == D!Data(e.recs)
        g == e.got IN
    IF e.exc # "" THEN {"an evaluation is refused"} ELSE UNION {
    Must("the nuclide", g.name = w.name /\ g.z = w.z /\ g.a = w.a /\ g.iso = w.iso /\ g.state = w.state /\ g.awr = w.awr),
    Must("whether it is stable", g.stable = w.stable),
    \* an unknown spin has no value
    Must("spin and parity", g.parity = w.parity /\ (IF w.spin = D!Unknown THEN w.stable \/ g.spin = <<>> ELSE g.spin = <<w.spin>>)),
    Must("half-life", g.half = w.half),
    \* ln 2 / T, with the relative uncertainty of T
    Must("decay constant", IF w.stable THEN g.dcT = 0 ELSE Near(g.dcT, 69314718, 30) /\ Near(g.rel, (w.half[2] * 1000) \div w.half[1], 2) /\ Near(g.pairT, g.dcT, 2) /\ Near(g.pairrel, g.rel, 2)),
    Must("average decay energies", Len(g.energies) = Len(w.energies) /\ Range(g.energies) = Range(w.energies)),
    IF Len(g.modes) # Len(w.modes) THEN {"the number of decay modes"} ELSE UNION {ModeJudge(g.modes[i], w.modes[i]) : i \in DOMAIN w.modes},
    IF {s.type : s \in Range(g.spectra)} # {s.type : s \in Range(w.spectra)} \/ Len(g.spectra) # Len(w.spectra) THEN {"the kinds of radiation"} ELSE UNION {
        LET want == CHOOSE s \in Range(w.spectra) : s.type = g.spectra[i].type IN SpecJudge(g.spectra[i], want) : i \in DOMAIN g.spectra}}

AsSet(got) == [i \in DOMAIN got |-> Range(got[i])]
Sizes(got, want) == \A i \in DOMAIN want : Len(got[i]) = Cardinality(want[i])
YieldsJudge(e) ==
    IF e.exc # "" THEN {"yields are refused"} ELSE UNION {
    Must("the fissioning nuclide", e.got.name = D!Name(e.z, e.a, e.iso) /\ e.got.z = e.z /\ e.got.a = e.a /\ e.got.iso = e.iso),
    LET w == D!Yields(e.ind) IN Must("energies of yields", e.got.e = w.e) \cup Must("independent yields", AsSet(e.got.ind) = w.y /\ Sizes(e.got.ind, w.y)),
    IF e.cum = <<>> THEN Must("cumulative yields that are not there", e.got.cum = <<>>) ELSE
    LET w == D!Yields(e.cum) IN Must("cumulative yields", AsSet(e.got.cum) = w.y /\ Sizes(e.got.cum, w.y))}
ModesJudge(e) == Must("what a number of the file says happens", e.exc = "" /\ e.got = D!Modes(e.x))

Judge(e) ==
    CASE e.ev = "decay" -> DecayJudge(e)
      [] e.ev = "yields" -> YieldsJudge(e)
      [] e.ev = "modes" -> ModesJudge(e)
      [] OTHER -> {"unknown event"}

TraceInit == l = 0
TraceNext == l < Len(Trace) /\ l' = l + 1 /\ Report(l + 1, Judge(Trace[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
=================================================================================

----------------------------- MODULE Trace_Photon -----------------------------
(* Judges photon data, relaxation data and their HDF5 files.                     *)
EXTENDS Verdict
VARIABLES l
P == INSTANCE Photon

\* reactions read from an evaluation
RxJudge(got, want) == UNION {
    Must("the cross sections a file has", got.mt = want.mt), Must("cross sections", got.xs = want.xs), Must("binding energies of reactions", got.eb = want.eb),
    Must("fluorescence yields", got.fy = want.fy), Must("scattering factors", got.ff = want.ff), Must("anomalous scattering factors", got.re = want.re /\ got.im = want.im)}
RelaxJudge(got, want) ==
    IF {s.shell : s \in Range(got)} # {s.shell : s \in Range(want)} \/ Len(got) # Len(want) THEN {"shells of relaxation data"} ELSE UNION {
        LET w == CHOOSE s \in Range(want) : s.shell = got[i].shell IN
        Must("binding energies of shells", got[i].eb = w.eb) \cup Must("electrons of shells", got[i].n = w.n) \cup Must("transitions", got[i].tr = w.tr) : i \in DOMAIN got}
\* HDF5 file of an evaluation's data
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
XsAt(name, xs, grid, t) == Must("file: " \o name, Len(xs) = Len(grid) /\ \A i \in DOMAIN grid : P!At(t, grid[i], xs[i]))
ByMt(rs, mt) == CHOOSE i \in DOMAIN rs : rs[i].mt = mt
HasMt(rs, mt) == \E i \in DOMAIN rs : rs[i].mt = mt
ShellRx(rs) == SelectSeq(rs, LAMBDA r : r.mt \in 534..572)
ShellNo(s) == IF s = "" THEN 0 ELSE CHOOSE i \in DOMAIN P!Shells : P!Shells[i] = s
TrRows(tr) == [j \in DOMAIN tr |-> <<ShellNo(tr[j][1]), ShellNo(tr[j][2]), tr[j][3], tr[j][4]>>]
OptXs(name, xs, rs, mt, grid) == IF HasMt(rs, mt) THEN (IF xs.k = 0 THEN {"file: " \o name} ELSE XsAt(name, xs.y, grid, rs[ByMt(rs, mt)].xs)) ELSE Must("file: " \o name \o " that is not there", xs.k = 0)
FileJudge(g, rs, relax, z) == UNION {
    Must("file: the element", g.name = P!Symbol(z) /\ g.z = z /\ g.kind = "data_photon"),
    IF ~(Sorted(g.energy) /\ Range(g.energy) = UNION {Range(rs[i].xs.x) : i \in DOMAIN rs}) THEN {"file: the energy grid"} ELSE UNION {
        XsAt("coherent scattering", g.coh, g.energy, rs[ByMt(rs, 502)].xs), XsAt("incoherent scattering", g.inc, g.energy, rs[ByMt(rs, 504)].xs),
        XsAt("photoelectric absorption", g.pe, g.energy, rs[ByMt(rs, 522)].xs),
        OptXs("pair production", g.pair, rs, 515, g.energy), OptXs("pair production by nuclei", g.nuc, rs, 517, g.energy),
        LET sh == ShellRx(rs) IN
        IF g.des # [i \in DOMAIN sh |-> P!Shell(sh[i].mt - 533)] \/ {s.shell : s \in Range(g.shells)} # Range(g.des) THEN {"file: the shells"} ELSE UNION {
            LET s == g.shells[i]
                x == sh[CHOOSE j \in DOMAIN sh : g.des[j] = s.shell].xs
                first == CHOOSE j \in DOMAIN g.energy : g.energy[j] = x.x[1]
                grid == SubSeq(g.energy, first, Len(g.energy)) IN
            Must("file: thresholds of shells", s.idx = first - 1) \cup XsAt("shell", s.xs, grid, x)
            \cup (IF ~\E r \in Range(relax) : r.shell = s.shell THEN {} ELSE
                LET r == CHOOSE r \in Range(relax) : r.shell = s.shell IN
                Must("file: binding energies of shells", s.eb = r.eb) \cup Must("file: electrons of shells", s.n = r.n) \cup Must("file: transitions", s.tr = TrRows(r.tr))) : i \in DOMAIN g.shells}},
    LET c == rs[ByMt(rs, 502)] IN
        Must("file: integrated scattering factor", IF c.ff.k = 0 THEN g.int.k = 0 ELSE g.int.k = 1 /\ Len(g.int.x) = Len(c.ff.x) /\ \A i \in DOMAIN c.ff.x :
            Near(g.int.x[i], (c.ff.x[i] \div 1000) * (c.ff.x[i] \div 1000), 0) /\ Near(g.int.y[i], P!Squares(c.ff, i), 0))
        \cup Must("file: anomalous scattering factors", g.re = c.re /\ g.im = c.im),
    Must("file: incoherent scattering factor", g.iff = rs[ByMt(rs, 504)].ff)}
JudgeEndf(e) ==
    IF e.exc # "" THEN {"an evaluation is refused"} ELSE
    LET w == P!ReadAll(e.secs, P!ReadStart)
        r == IF e.relax = <<>> THEN <<>> ELSE P!Relaxation(e.relax) IN
    IF [i \in DOMAIN e.got.rx |-> e.got.rx[i].mt] # [i \in DOMAIN w |-> w[i].mt] THEN {"the cross sections a file has"} ELSE UNION {
    Must("the element", e.got.z = e.z /\ e.got.name = P!Symbol(e.z)),
    UNION {RxJudge(e.got.rx[i], w[i]) : i \in DOMAIN w},
    RelaxJudge(e.got.relax, r), Must("shells in order", Range(e.got.order) = {s.shell : s \in Range(r)} /\ Len(e.got.order) = Len(r)),
    Must("a cross section is found", e.got.has),
    IF e.fexc # "" THEN {"the export fails"} ELSE FileJudge(e.file, w, r, e.z) \cup Must("file: Compton profiles, stopping powers, bremsstrahlung", e.file.pack = e.got.pack)}

\* tables
\* below the threshold there are words zero; above it a cross section is a function of the energies from there on
RECURSIVE First(_, _)
First(s, i) == IF s[i] # 0 THEN i ELSE First(s, i + 1)
From(s, i) == SubSeq(s, i, Len(s))
LogY(s) == [i \in DOMAIN s |-> IF s[i] = 0 THEN NInf ELSE s[i]]
AceFactor(got, f, mt) == LET w == P!Factor(f, mt) IN
    Must("scattering factors", got.ffy = w.y /\ (IF P!New(f) \/ mt \notin {502, 504} THEN got.ffu = w.x ELSE got.ffm = w.x))
AceRelax(got, f) == RelaxJudge(got, [i \in 1..f.nxs[7] |-> LET s == P!AShell(f, i) IN [shell |-> s.shell, n |-> s.n, eb |-> s.eb, tr |-> s.tr]])
ComptonJudge(g, f) == LET w == P!Compton(f) IN
    IF f.nxs[5] = 0 THEN Must("Compton profiles that are not there", g.n = <<>>) ELSE
    Must("electrons and binding energies of Compton profiles", g.n = w.n /\ g.eb = w.eb) \cup Must("Compton profiles", g.J = w.J)
AceFile(g, f, z) == UNION {
    Must("file: the element", g.name = P!Symbol(z) /\ g.z = z /\ g.kind = "data_photon"),
    Must("file: the energy grid", g.energy = P!LogE(f)),
    Must("file: cross sections", g.coh = LogY(P!LogXs(f, 502)) /\ g.inc = LogY(P!LogXs(f, 504)) /\ g.pe = LogY(P!LogXs(f, 522)) /\ g.pair.k = 1 /\ g.pair.y = LogY(P!LogXs(f, 515)) /\ g.nuc.k = 0),
    IF g.des # [i \in 1..f.nxs[7] |-> P!AShell(f, i).shell] \/ Len(g.shells) # Len(g.des) THEN {"file: the shells"} ELSE UNION {
        LET w == P!AShell(f, CHOOSE j \in 1..f.nxs[7] : P!AShell(f, j).shell = g.shells[i].shell)
            s == g.shells[i] IN
        Must("file: shells", s.xs = From(w.xs, First(w.xs, 1)) /\ s.idx = First(w.xs, 1) - 1 /\ s.eb = w.eb /\ s.n = w.n /\ s.tr = TrRows(w.tr)) : i \in DOMAIN g.shells},
    IF f.nxs[5] = 0 THEN Must("file: Compton profiles that are not there", g.comp.n = <<>>) ELSE
        LET w == P!Compton(f) IN Must("file: Compton profiles", g.comp.n = w.n /\ g.comp.eb = w.eb /\ g.comp.pz = w.J[1].x /\ g.comp.J = [k \in DOMAIN w.J |-> w.J[k].y])}
JudgeAce(e) ==
    IF e.exc # "" THEN {"a table is refused"} ELSE
    IF [i \in DOMAIN e.got.rx |-> e.got.rx[i].mt] # P!AMts(e.f) THEN {"the reactions of a table"} ELSE UNION {
    Must("the element", e.got.z = e.z /\ e.got.name = P!Symbol(e.z)),
    UNION {LET g == e.got.rx[i]
               n == i - 4
               w == IF i <= 4 THEN P!LogXs(e.f, g.mt) ELSE P!AShell(e.f, n).xs
               t == First(w, 1) IN
        Must("energies", g.x = From(P!LogE(e.f), t)) \cup Must("the law between points", g.r = <<<<P!NE(e.f) - t + 1, 5>>>>)
        \cup Must("cross sections", g.y = From(w, t))
        \cup Must("binding energies of reactions", g.eb = IF i <= 4 THEN <<>> ELSE <<P!AShell(e.f, n).eb>>)
        \cup AceFactor(g, e.f, g.mt) : i \in DOMAIN e.got.rx},
    AceRelax(e.got.relax, e.f), ComptonJudge(e.got.comp, e.f),
    IF e.fexc # "" THEN {"the export fails"} ELSE AceFile(e.file, e.f, e.z)}

\* exports one after another
RECURSIVE Steps(_, _, _)
Steps(s, e, i) ==
    IF i > Len(e.steps) THEN {} ELSE
    LET st == e.steps[i]
        n == P!Export(s, st.el, st.mode) IN
    IF (st.exc # "") # (P!Outcome(s, st.el, st.mode) = "refused") THEN {IF st.exc = "" THEN "an element is taken twice, or a file is written over" ELSE "an export is refused"}
    ELSE IF {g[1] : g \in Range(st.groups)} # {e.names[k] : k \in n.els} \/ Len(st.groups) # Cardinality(n.els) THEN {"the elements of a file"}
    ELSE IF \E g \in Range(st.groups), k \in {1, 2} : e.names[k] = g[1] /\ e.prints[k] # g[2] THEN {"an export changes data of another element"}
    ELSE Steps(n, e, i + 1)
JudgeHistory(e) == Steps(P!NoFile, e, 1)
JudgeElement(e) == IF e.exc # "" THEN {"an element is refused"} ELSE
    Must("Compton profiles of an element", e.got.n = e.raw.n /\ e.got.eb = e.raw.eb /\ e.got.J = e.raw.J /\ e.got.pz = e.raw.pz)
    \cup Must("stopping powers of an element", e.got.se = e.raw.se /\ e.got.I = e.raw.I /\ e.got.sc = e.raw.sc /\ e.got.sr = e.raw.sr)
    \cup Must("bremsstrahlung of an element", e.got.be = e.raw.be /\ e.got.bp = e.raw.bp /\ e.got.bd = e.raw.bd)

Judge(e) ==
    CASE e.ev = "endf" -> JudgeEndf(e)
      [] e.ev = "ace" -> JudgeAce(e)
      [] e.ev = "history" -> JudgeHistory(e)
      [] e.ev = "element" -> JudgeElement(e)
      [] e.ev = "norelax" -> Must("relaxation from another evaluation", e.exc = "OSError")
      [] OTHER -> {"unknown event"}

TraceInit == l = 0
TraceNext == l < Len(Trace) /\ l' = l + 1 /\ Report(l + 1, Judge(Trace[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
=================================================================================

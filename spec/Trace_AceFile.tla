---------------------------- MODULE Trace_AceFile ----------------------------
(* Judges what the real reader made of ACE files.                              *)
EXTENDS Verdict
VARIABLES l
A == INSTANCE AceFile WITH Ns <- {}, Mts <- {}, Gaps <- {}, MaxRx <- 0, desc <- 0, file <- 0, found <- 0, step <- 0

Row(rows, mt) == rows[CHOOSE i \in DOMAIN rows : rows[i].mt = mt]

\* secondary particles of one reaction: neutrons first, then photons
Emitting(f, mt) == mt \in A!FileMts(f) /\ A!IndexOf(f, mt) <= A!NR(f)
IsFission(f, i) == A!AbsV(A!RxTy(f, i)) = 19
NeutronProducts(f, mt, r) ==
    LET i == A!IndexOf(f, mt)
        d == A!NeutronDists(f, i)
        n == r.neutrons IN
    IF IsFission(f, i) THEN UNION {
        Must("fission does not have one prompt product and one per delayed group", Len(n) = 1 + A!NGroups(f)),
        Must("nubar is not what the NU block says", Len(n) = 0 \/ (n[1].yield = A!PromptNu(f) /\ n[1].mode = A!PromptMode(f))),
        Must("the prompt fission spectrum is not what the DLW block says", Len(n) = 0 \/ n[1].dists = d),
        Must("total nubar is not what the NU block says",
             IF A!BothNu(f) THEN Len(r.derived) = 1 /\ r.derived[1].yield = A!TotalNu(f) /\ r.derived[1].mode = "total"
             ELSE r.derived = <<>>),
        Must("a delayed group is not what its block says", Len(n) # 1 + A!NGroups(f) \/ \A g \in 1..A!NGroups(f) :
             LET p == n[g + 1] IN
             /\ p.mode = "delayed" /\ p.rate = A!DelayedRate(f, g)
             /\ Len(p.dists) = 1 /\ p.dists[1].d = A!DelayedLaw(f, g)
             /\ p.yield.k = "tab" /\ p.yield.t.x = A!DelayedNu(f).x
             /\ Len(p.yr) = Len(A!DelayedNu(f).y)
             /\ \A k \in DOMAIN p.yr : IsNum(p.yr[k]) /\ p.yr[k] < 100000 /\ Near(p.yr[k] * A!SumProb(f), A!DelayedNu(f).y[k] * A!GroupProb(f, g), A!SumProb(f)))}
    ELSE UNION {
        Must("a reaction does not have exactly one neutron product", Len(n) = 1),
        Must("the neutron yield is not what the TYR block says", Len(n) # 1 \/ n[1].yield = A!Yield(f, i)),
        Must("the secondary distribution is not what the DLW/AND blocks say", Len(n) # 1 \/ n[1].dists = d)}

PhotonProducts(f, mt, r) ==
    LET ix == SetToSortSeq(A!PhotonsOf(f, mt), LAMBDA a, b : a < b) IN UNION {
    Must("the photon products are not those listed for the reaction", Len(r.photons) = Len(ix)),
    Must("a photon's yield or spectrum is not what its blocks say", Len(r.photons) # Len(ix) \/ \A k \in DOMAIN ix :
        LET p == r.photons[k]
            s == A!PhotonSig(f, ix[k])
            mf == A!IntAt(f, s) IN
        /\ Len(p.dists) = 1 /\ p.dists[1].d = A!PhotonLaw(f, ix[k])
        /\ IF mf = 13
           THEN LET ie == A!IntAt(f, s + 1)
                    n == A!IntAt(f, s + 2)
                    pxs == A!Slice(f, s + 3, n) IN
                /\ p.yield.k = "tab" /\ p.yield.t.x = A!Slice(f, f.jxs[1] + ie - 1, n) /\ Len(p.yr) = n
                /\ \A j \in 1..n : LET xs == A!ValueAt(A!Tables(f)[mt], ie + j - 1) IN
                     IF xs > 0 THEN p.yr[j] < 100000 /\ Near(p.yr[j] * xs, pxs[j] * A!U, xs) ELSE p.yr[j] = 0
           ELSE p.yield = [k |-> "tab", t |-> A!Tab(f, s + 2)])}

JudgeLoad(e) ==
    LET f == [nxs |-> e.nxs, jxs |-> e.jxs, x |-> e.x]
        T == A!Tables(f)
        got == {e.rx[i].mt : i \in DOMAIN e.rx} IN
    IF e.exc # "" THEN {"a well-formed table was refused"} ELSE UNION {
    Must("the nuclide's identity is wrong", e.ident = A!Identity(e.zaid, e.scheme)),
    Must("the atomic weight ratio is wrong", e.awr = e.hawr),
    \* kT in 1e-8 eV, Boltzmann constant 8617.3303e-8 eV/K
    Must("the temperature is wrong", e.kt = e.hkt /\ e.ntemps = 1 /\ Abs(e.hkt * 10 - e.kelvin * 86173) <= 43100),
    Must("the energy grid is wrong", e.energy = A!Energies(f)),
    Must("a reaction on the file is missing, or one is there that should not be", got = DOMAIN T),
    Must("a cross section is not the file's", \A m \in got \cap DOMAIN A!Base(f) :
        [first |-> Row(e.rx, m).first, y |-> Row(e.rx, m).y] = T[m]),
    Must("an added sum is not the sum of its parts", \A m \in (got \cap DOMAIN T) \ DOMAIN A!Base(f) :
        [first |-> Row(e.rx, m).first, y |-> Row(e.rx, m).y] = T[m]),
    Must("a Q value is wrong", \A m \in got \cap A!FileMts(f) : Row(e.rx, m).q = A!RxQ(f, A!IndexOf(f, m))),
    Must("the frame of a reaction is wrong", \A m \in got \cap A!FileMts(f) :
        Row(e.rx, m).cm = (A!RxTy(f, A!IndexOf(f, m)) < 0)),
    Must("a redundant reaction is not marked, or another one is", \A m \in got \cap DOMAIN T :
        Row(e.rx, m).red = A!Redundant(f, m)),
    UNION {NeutronProducts(f, m, Row(e.rx, m)) : m \in {m \in got : Emitting(f, m)}},
    Must("a reaction without secondary neutrons has some", \A m \in got : m = 2 \/ Emitting(f, m) \/ Row(e.rx, m).neutrons = <<>>),
    Must("the elastic angular distribution is wrong", 2 \notin got \/
        (Len(Row(e.rx, 2).neutrons) = 1 /\ Len(Row(e.rx, 2).neutrons[1].dists) = 1 /\ Row(e.rx, 2).neutrons[1].dists[1].angle = A!Angle(f, 0))),
    UNION {PhotonProducts(f, m, Row(e.rx, m)) : m \in got \cap DOMAIN T},
    Must("the probability tables are wrong", IF A!HasUrr(f) THEN e.urr = <<A!Urr(f)>> ELSE e.urr = <<>>)}

\* a library of tables, read as text and, converted, as binary
JudgeLib(e) ==
    LET want == SelectSeq(e.tables, LAMBDA t : e.all \/ t.name \in {e.asked[i] : i \in DOMAIN e.asked}) IN UNION {
    Must("a library could not be read", e.exc = ""),
    Must("the tables read are not those asked for, in the order of the file", e.exc # "" \/
        [i \in DOMAIN e.got |-> e.got[i].name] = [i \in DOMAIN want |-> want[i].name]),
    Must("a table of the library differs from its text", e.exc # "" \/ Len(e.got) # Len(want) \/
        \A i \in DOMAIN want : e.got[i] = want[i])}
JudgeGet(e) ==
    LET names == [i \in DOMAIN e.tables |-> e.tables[i].name]
        ix == {i \in DOMAIN names : e.asked = "" \/ names[i] = e.asked} IN
    IF ix = {} THEN Must("a table that is not in the library was returned", e.exc # "")
    ELSE UNION {Must("a table in the library was not found", e.exc = ""),
                Must("another table than the one asked for was returned", e.exc # "" \/ e.got = <<e.tables[Min(ix)]>>)}

Judge(e) ==
    CASE e.ev = "load" -> JudgeLoad(e)
      [] e.ev = "lib" -> JudgeLib(e)
      [] e.ev = "get" -> JudgeGet(e)
      [] e.ev = "ident" -> Must("the nuclide's identity is wrong", e.exc = "" /\ e.ident = A!Identity(e.zaid, e.scheme))
      [] OTHER -> {"unknown event"}

TraceInit == l = 0
TraceNext == l < Len(Trace) /\ l' = l + 1 /\ Report(l + 1, Judge(Trace[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
==============================================================================

------------------------------- MODULE Trace_Deck -------------------------------
(* Decks the code wrote, executed symbolically and compared with what was asked. *)
EXTENDS Verdict
VARIABLES l
D == INSTANCE Deck WITH MaxTemps <- 0, Weights <- {}, opt <- 0, deck <- 0, tapes <- 0, bad <- 0

EmptyTapes == [n \in {} |-> D!Empty]
TapesOf(tin) == FoldSeq(LAMBDA x, f : (x.t :> (IF x.kind = "tsl" THEN D!TSL ELSE IF x.kind = "endf" THEN D!ENDF ELSE D!Empty)) @@ f, EmptyTapes, tin)
ModsOf(e, name) == {i \in DOMAIN e.mods : e.mods[i].m = name}
NoDup(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
Holds(x, tout, name, c) == \E i \in DOMAIN tout : tout[i].name = name /\ tout[i].t \in DOMAIN x.tp /\ x.tp[tout[i].t] = c

Common(e, x) == UNION {
    x.bad,
    Must("the deck cannot be read", e.garbled = ""),
    Must("the deck does not end with stop", e.stop),
    Must("the evaluation is not the one given", \A i \in DOMAIN e.tin : e.tin[i].kind # "other"),
    Must("an input tape has no file or two", NoDup([i \in DOMAIN e.tin |-> e.tin[i].t])),
    Must("two tapes are saved under one name", NoDup([i \in DOMAIN e.tout |-> e.tout[i].name])),
    Must("another tolerance than asked for", \A i \in ModsOf(e, "reconr") \cup ModsOf(e, "broadr") : e.mods[i].x = <<e.tol>>),
    Must("a module is run other than asked for", e.mods # <<>> =>
        Cardinality(ModsOf(e, "reconr")) = 1 /\ Cardinality(ModsOf(e, "broadr")) = (IF e.o.broadr THEN 1 ELSE 0)
        /\ Cardinality(ModsOf(e, "heatr")) = (IF e.o.heatr THEN 1 ELSE 0) /\ Cardinality(ModsOf(e, "purr")) = (IF e.o.purr THEN 1 ELSE 0)
        /\ Cardinality(ModsOf(e, "acer")) = (IF e.o.acer THEN Len(e.o.temps) ELSE 0)),
    Must("the data are broadened to other temperatures", \A i \in ModsOf(e, "broadr") : e.mods[i].temps = e.o.temps),
    Must("heating is computed for other reactions", \A i \in ModsOf(e, "heatr") : e.mods[i].x = <<302, 318, 402>>),
    Must("two ACE tables have one identifier", NoDup(SetToSeq({<<e.mods[i].temp, e.mods[i].kind>> : i \in ModsOf(e, "acer")}))
        /\ \A i, j \in ModsOf(e, "acer") : i # j => e.mods[i].kind # e.mods[j].kind)}

Judge(e) ==
    IF e.ev = "deck" THEN
        IF e.exc # "" THEN Must("a possible request is refused", D!Refused(e.o))
        ELSE IF D!Refused(e.o) THEN {"an impossible request is not refused"}
        ELSE LET x == D!Execute(TapesOf(e.tin), {}, e.mods, e.mat) IN UNION {
            Common(e, x),
            Must("the deck written is not the deck returned", e.same),
            Must("other files are saved than those asked for", {e.tout[i].name : i \in DOMAIN e.tout} = {p.name : p \in D!Owed(e.o)}),
            UNION {Must("a file is not saved from the tape of its product", Holds(x, e.tout, p.name, p.c)) : p \in D!Owed(e.o)}}
    ELSE IF e.ev = "run" THEN
        \* the deck was executed by a processing code that writes its number on each tape: got is what the files hold
        IF e.failed THEN {}
            \cup Must("a failing run of the processing code goes unnoticed", e.exc # "")
            \cup Must("a library was made from a failing run", e.ace = <<>> /\ e.dir = <<>> /\ e.pendf = <<>>)
        ELSE IF e.exc # "" THEN {"a possible request is refused"}
        ELSE LET x == D!Execute(TapesOf(e.tin), {}, e.mods, e.mat)
                 Is(n, k, i) == n \in DOMAIN x.tp /\ x.tp[n] = [D!Empty EXCEPT !.k = k, !.st = (IF e.thermal THEN {"broadr", "free", "bound"} ELSE D!Stages(e.o)), !.temp = e.o.temps[i]] IN UNION {
            Common(e, x),
            Must("the ACE file does not hold each temperature once, in order", e.o.acer => Len(e.ace) = Len(e.o.temps) /\ \A i \in DOMAIN e.ace : Is(e.ace[i].t, "ace", i)),
            Must("the directory does not hold each temperature once, in order", e.o.acer => Len(e.dir) = Len(e.o.temps) /\ \A i \in DOMAIN e.dir : Is(e.dir[i].t, "dir", i)),
            Must("no ACE file was asked for", e.o.acer \/ (e.ace = <<>> /\ e.dir = <<>>)),
            Must("the pointwise file is not the pointwise tape", e.o.pendf => Len(e.pendf) = 1 /\ e.pendf[1].t \in DOMAIN x.tp /\ x.tp[e.pendf[1].t] = [D!Empty EXCEPT !.k = "pendf"]),
            Must("the table's identifier", \A i \in DOMAIN e.ace : e.ace[i].za = e.za + (IF e.iso > 0 /\ ~e.thermal /\ (e.za % 1000) < 300 THEN 400 ELSE 0)),
            Must("the text of a table is changed", \A i \in DOMAIN e.ace : e.ace[i].rest),
            Must("free or bound scattering is run other than asked for", ~e.thermal \/ (
                LET f == {i \in ModsOf(e, "thermr") : e.mods[i].t[1] = 0}
                    b == ModsOf(e, "thermr") \ f IN
                Cardinality(f) = 1 /\ Cardinality(b) = 1
                /\ (\A i \in f : e.mods[i].x = <<1, 0, 1, 221, e.th.emax>>)
                /\ (\A i \in b : e.mods[i].x = <<e.th.mat, 2, IF e.th.el = 0 THEN 0 ELSE 1, e.th.natom, 222, e.th.emax>>)
                /\ (\A i \in ModsOf(e, "acer") : LET md == D!Moderators[e.th.mat] IN e.mods[i].rx = md.name /\ e.mods[i].mts = SubSeq(md.za, 1, IF Len(md.za) > 3 THEN 3 ELSE Len(md.za))
                    \o <<222, 64, IF e.th.el = 0 THEN 0 ELSE 223, IF e.th.el = 0 THEN 0 ELSE e.th.el - 1, md.nmix, e.th.emax>>)))}
    ELSE IF e.ev = "from" THEN
        \* data loaded through NJOY, the tables told apart by a mark
        IF e.exc # "" THEN {"loading through NJOY failed"}
        ELSE LET x == D!Execute(TapesOf(e.tin), {}, e.mods, e.mat)
                 N == DOMAIN e.o.temps IN UNION {
            Common(e, x),
            Must("the nuclide or material", e.got.name = e.name),
            Must("the temperatures of the data", Cardinality({e.got.temps[i] : i \in DOMAIN e.got.temps}) = Len(e.o.temps) /\ Len(e.got.temps) = Len(e.o.temps)),
            Must("a temperature does not hold the data of its table", \A i \in N : \E j \in DOMAIN e.got.temps :
                e.o.temps[i] - (1000 * e.got.temps[j]) \in -510..510 /\ e.got.marks[j] = e.marks[i]),
            Must("the elastic cross section at zero temperature is not that of the pointwise tape", e.thermal \/ e.got.zero = <<e.zero>>)}
    ELSE {"unknown event"}

TraceInit == l = 0
TraceNext == l < Len(Trace) /\ l' = l + 1 /\ Report(l + 1, Judge(Trace[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
=================================================================================

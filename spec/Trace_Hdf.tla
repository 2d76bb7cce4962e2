------------------------------ MODULE Trace_Hdf ------------------------------
(* Judges histories of neutron data in memory and in HDF5 files, step by step.  *)
EXTENDS Verdict
VARIABLES l, mem, disk
H == INSTANCE Hdf WITH Tables <- <<>>, Files <- {}, MaxOps <- 0, Order <- <<>>, hist <- <<>>, orig <- <<>>

Row(rows, mt) == rows[CHOOSE i \in DOMAIN rows : rows[i].mt = mt]
Mts(j) == {j.rx[i].mt : i \in DOMAIN j.rx}
\* the nuclide an observation shows
Nuc(j) == [name |-> j.name, temps |-> {j.temps[i] : i \in DOMAIN j.temps}, urr |-> j.urr,
           id |-> j.id, kts |-> j.kts, grid |-> j.grid, fer |-> j.fer,
           rx |-> [mt \in Mts(j) |-> LET r == Row(j.rx, mt) IN [xs |-> r.xs, red |-> r.red, photon |-> r.photon, nu |-> r.nu, built |-> r.built, body |-> r.body, bare |-> r.bare]]]
Same(f, g) == DOMAIN f = DOMAIN g /\ \A k \in DOMAIN f : f[k] = g[k]

JudgeSame(n, g, what) ==
    UNION {Must(what \o ": the nuclide's identity", g.name = n.name /\ g.id = n.id),
           Must(what \o ": the temperatures", g.temps = n.temps /\ Same(g.kts, n.kts)),
           Must(what \o ": an energy grid", Same(g.grid, n.grid)),
           Must(what \o ": the probability tables", Same(g.urr, n.urr)),
           Must(what \o ": the energy released by fission", g.fer = n.fer),
           Must(what \o ": the list of reactions", DOMAIN g.rx = DOMAIN n.rx)}
JudgeRx(n, g, mts, what) == UNION {
    Must(what \o ": a cross section", \A m \in mts : Same(g.rx[m].xs, n.rx[m].xs)),
    Must(what \o ": a reaction's Q value, frame, threshold or products", \A m \in mts : g.rx[m].body = n.rx[m].body /\ g.rx[m].photon = n.rx[m].photon),
    Must(what \o ": the mark of redundant reactions", \A m \in mts : g.rx[m].red = n.rx[m].red),
    Must(what \o ": total nubar", \A m \in mts : g.rx[m].nu = n.rx[m].nu)}
JudgeAll(n, g, what) == JudgeSame(n, g, what) \cup JudgeRx(n, g, DOMAIN n.rx \cap DOMAIN g.rx, what)

\* adding a temperature also brings its grid and its kT
Added(n, t) == LET T == H!Temp(t)
                   a == H!Added(n, t) IN
    IF H!SameTemp(n, t) \/ H!Refused(n, t) THEN a
    ELSE [a EXCEPT !.kts = (T :> t.kts[T]) @@ @, !.grid = (T :> t.grid[T]) @@ @]
JudgeAdd(n, t, e) ==
    LET g == Nuc(e.after)
        ok == ~H!Refused(n, t)
        w == Added(n, t) IN
    UNION {Must(IF ok THEN "a temperature of the same nuclide was refused" ELSE "a temperature of another nuclide was accepted", (e.exc = "") = ok),
           JudgeSame(w, g, "after adding a temperature"),
           \* thresholds at the new temperature are part of the body
           LET mts == DOMAIN w.rx \cap DOMAIN g.rx IN
           UNION {Must("after adding a temperature: a cross section", \A m \in mts : Same(g.rx[m].xs, w.rx[m].xs)),
                  Must("after adding a temperature: something else of a reaction", \A m \in mts :
                      g.rx[m].red = w.rx[m].red /\ g.rx[m].photon = w.rx[m].photon /\ g.rx[m].nu = w.rx[m].nu)}}

NamesIn(f) == IF f \in DOMAIN disk' THEN DOMAIN disk'[f] ELSE {}
JudgeExport(e) ==
    LET ok == H!MayExport(disk, e.file, e.mode, mem) IN
    UNION {Must(IF ok THEN "an export was refused" ELSE "an export over existing data was accepted", (e.exc = "") = ok),
           JudgeAll(mem, Nuc(e.after), "after exporting"),
           Must("the file does not hold the nuclides exported to it", {e.names[i] : i \in DOMAIN e.names} = NamesIn(e.file))}
JudgeImport(e) ==
    LET name == IF e.name = "" THEN CHOOSE x \in DOMAIN disk[e.file] : TRUE ELSE e.name
        s == disk[e.file][name]
        w == H!Restored(s)
        g == Nuc(e.after)
        sums == DOMAIN w.rx \ DOMAIN s.rx IN
    IF e.exc # "" THEN {"an exported nuclide could not be imported"} ELSE UNION {
    JudgeSame(w, g, "after importing"),
    JudgeRx(w, g, DOMAIN s.rx \cap DOMAIN g.rx, "after importing"),
    Must("a rebuilt sum is not the sum of its parts", \A m \in sums \cap DOMAIN g.rx : Same(g.rx[m].xs, w.rx[m].xs)),
    Must("a rebuilt sum is not marked as redundant or has products", \A m \in sums \cap DOMAIN g.rx : g.rx[m].red /\ g.rx[m].bare),
    Must("total nubar is not with the rebuilt fission reaction", \A m \in sums \cap DOMAIN g.rx : g.rx[m].nu = w.rx[m].nu)}

JudgeLibrary(e) ==
    LET at == [i \in DOMAIN e.order |-> {m \in DOMAIN disk[e.order[i]] : TRUE}] IN UNION {
    Must("a library of exported files could not be written or read", e.exc = ""),
    Must("the files of a library are not those registered", e.exc # "" \/ [i \in DOMAIN e.rows |-> e.rows[i].file] = e.order),
    Must("a file's nuclides are not listed with it", e.exc # "" \/ Len(e.rows) # Len(e.order) \/ \A i \in DOMAIN e.order :
        {e.rows[i].names[k] : k \in DOMAIN e.rows[i].names} = at[i] /\ e.rows[i].type = "neutron"),
    Must("a nuclide is not found in the first file that has it", e.exc # "" \/ \A m \in DOMAIN e.hit :
        LET ix == {i \in DOMAIN at : m \in at[i]} IN e.hit[m] = IF ix = {} THEN "" ELSE e.order[Min(ix)])}

\* windowed multipole data: stored and read back as they are, refused if their arrays do not fit together
JudgeWmp(e) ==
    IF e.bad THEN Must("multipole data whose arrays do not fit together were accepted", e.exc # "")
    ELSE UNION {Must("multipole data could not be exported and imported", e.exc = ""),
                Must("multipole data changed on the way through a file", e.exc # "" \/ e.after = e.before)}

Step(e) ==
    CASE e.ev = "start" -> mem' = <<>> /\ disk' = <<>>
      [] e.ev = "load" -> mem' = Nuc(e.after) /\ UNCHANGED disk
      [] e.ev = "add" -> mem' = Nuc(e.after) /\ UNCHANGED disk
      [] e.ev = "export" -> disk' = H!Exported(disk, e.file, e.mode, mem) /\ UNCHANGED mem
      [] e.ev = "import" -> mem' = Nuc(e.after) /\ UNCHANGED disk
      [] OTHER -> UNCHANGED <<mem, disk>>
Judge(e) ==
    CASE e.ev = "start" -> {}
      [] e.ev = "load" -> Must("a table could not be loaded", e.exc = "")
      [] e.ev = "add" -> JudgeAdd(mem, Nuc(e.table), e)
      [] e.ev = "export" -> JudgeExport(e)
      [] e.ev = "import" -> JudgeImport(e)
      [] e.ev = "wmp" -> JudgeWmp(e)
      [] e.ev = "library" -> JudgeLibrary(e)
      [] OTHER -> {"unknown event"}

TraceInit == l = 0 /\ mem = <<>> /\ disk = <<>>
TraceNext == l < Len(Trace) /\ l' = l + 1 /\ Step(Trace[l + 1]) /\ Report(l + 1, Judge(Trace[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, mem, disk>>
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
==============================================================================

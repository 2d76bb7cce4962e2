--------------------------------- MODULE Hdf ---------------------------------
(* Neutron data in memory and in HDF5 files: loading a table, adding further    *)
(* temperatures, exporting, importing, and the list of files (the library).     *)
(* A nuclide is [name, temps, rx, urr]; a reaction is [xs, red, photon, nu,     *)
(* built, body]: xs gives for every temperature the cross section on its grid,  *)
(* nu is the total nubar, built says that it was rebuilt, body is all the rest.                                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CONSTANTS Tables,       \* nuclides at one temperature
          Files,        \* names of files
          MaxOps,
          Order         \* the order in which missing sums are rebuilt
VARIABLES mem,          \* <<>> or <<nuclide>>
          disk,         \* file -> name -> stored nuclide; absent files are not in the domain
          hist,         \* what was done
          orig          \* ghost: file -> name -> the nuclide as it was exported

R == INSTANCE Reactions
Fission == {18, 19, 20, 21, 38}
\* sums that are stored although they can be rebuilt
Transmutation == {4, 16} \cup (103..107)

Plus(a, b) == [k \in DOMAIN a |-> a[k] + b[k]]
\* the sum of the vectors of a function with a non-empty domain
Total(S) == LET x == CHOOSE x \in DOMAIN S : TRUE IN FoldSet(LAMBDA y, acc : Plus(S[y], acc), S[x], DOMAIN S \ {x})

\* ---- storing ---------------------------------------------------------------
Stored(n) == [n EXCEPT !.rx = [mt \in {m \in DOMAIN n.rx : ~n.rx[m].red \/ (~n.rx[m].built /\ (n.rx[m].photon \/ m \in Transmutation))} |-> n.rx[mt]]]
\* total nubar is stored once
NuOf(s) == LET with == {m \in DOMAIN s.rx : s.rx[m].nu # ""} IN IF with = {} THEN "" ELSE s.rx[CHOOSE m \in with : TRUE].nu

\* ---- restoring: the declared meaning -----------------------------------------
Below(mt) == IF mt \in R!Sums THEN R!BelowTab[mt] ELSE {}
\* a reaction that is there or can be rebuilt; the same at one temperature
Live(rx, mt) == mt \in DOMAIN rx \/ Below(mt) \cap DOMAIN rx # {}
At(rx, T) == {m \in DOMAIN rx : T \in DOMAIN rx[m].xs}
LiveAt(rx, mt, T) == IF mt \in DOMAIN rx THEN T \in DOMAIN rx[mt].xs ELSE Below(mt) \cap At(rx, T) # {}
RECURSIVE XsOf(_, _, _)
XsOf(rx, mt, T) ==
    IF mt \in DOMAIN rx THEN rx[mt].xs[T]
    ELSE Total([p \in {p \in R!Parts(mt) : LiveAt(rx, p, T)} |-> XsOf(rx, p, T)])
Sum(xs, nu) == [xs |-> xs, red |-> TRUE, photon |-> FALSE, nu |-> nu, built |-> TRUE, body |-> "sum"]
Restored(s) ==
    LET live == {m \in R!Sums : Live(s.rx, m)}
        nu == NuOf(s) IN
    [s EXCEPT !.rx = [mt \in DOMAIN s.rx \cup live |->
        IF mt \in DOMAIN s.rx THEN [s.rx[mt] EXCEPT !.nu = IF mt \in Fission THEN nu ELSE ""]
        ELSE Sum([T \in {T \in s.temps : LiveAt(s.rx, mt, T)} |-> XsOf(s.rx, mt, T)], IF mt = 18 THEN nu ELSE "")]]

\* ---- restoring: one sum after the other, from direct parts ---------------------
Build(s, mt) ==
    LET parts == R!Parts(mt) \cap DOMAIN s.rx IN
    IF mt \in DOMAIN s.rx \/ parts = {} THEN s
    ELSE [s EXCEPT !.rx = (mt :> Sum([T \in {T \in s.temps : parts \cap At(s.rx, T) # {}} |-> Total([p \in parts \cap At(s.rx, T) |-> s.rx[p].xs[T]])], IF mt = 18 THEN NuOf(s) ELSE "")) @@ s.rx]
Rebuilt(s) == FoldSeq(LAMBDA mt, acc : Build(acc, mt), [s EXCEPT !.rx = [mt \in DOMAIN s.rx |-> [s.rx[mt] EXCEPT !.nu = IF mt \in Fission THEN NuOf(s) ELSE ""]]], Order)

\* ---- adding a temperature ------------------------------------------------------
Temp(t) == CHOOSE T \in t.temps : TRUE
SameTemp(n, t) == Temp(t) \in n.temps
Refused(n, t) == ~SameTemp(n, t) /\ t.name # n.name
Added(n, t) ==
    IF SameTemp(n, t) \/ Refused(n, t) THEN n
    ELSE LET T == Temp(t) IN
         [n EXCEPT !.temps = @ \cup {T},
                   !.rx = [mt \in DOMAIN n.rx |-> IF mt \in DOMAIN t.rx THEN [n.rx[mt] EXCEPT !.xs = (T :> t.rx[mt].xs[T]) @@ @] ELSE n.rx[mt]],
                   !.urr = IF T \in DOMAIN t.urr THEN (T :> t.urr[T]) @@ @ ELSE @]

\* ---- files -----------------------------------------------------------------------
\* mode w: a new file; x: only if there is none; a: next to what is there, which may not be the same nuclide
MayExport(d, f, mode, n) ==
    CASE mode = "w" -> TRUE
      [] mode = "x" -> f \notin DOMAIN d
      [] mode = "a" -> f \notin DOMAIN d \/ n.name \notin DOMAIN d[f]
Exported(d, f, mode, n) ==
    IF ~MayExport(d, f, mode, n) THEN d
    ELSE IF mode = "a" /\ f \in DOMAIN d THEN (f :> ((n.name :> Stored(n)) @@ d[f])) @@ d
    ELSE (f :> (n.name :> Stored(n))) @@ d

\* ---- state machine ---------------------------------------------------------------
Init == mem = <<>> /\ disk = <<>> /\ hist = <<>> /\ orig = <<>>
Do(op) == Len(hist) < MaxOps /\ hist' = Append(hist, op)
Load(t) == Do([op |-> "load", table |-> t]) /\ mem' = <<Tables[t]>> /\ UNCHANGED <<disk, orig>>
Add(t) == mem # <<>> /\ Do([op |-> "add", table |-> t]) /\ mem' = <<Added(mem[1], Tables[t])>> /\ UNCHANGED <<disk, orig>>
Export(f, mode) ==
    /\ mem # <<>> /\ Do([op |-> "export", file |-> f, mode |-> mode])
    /\ disk' = Exported(disk, f, mode, mem[1])
    /\ orig' = IF ~MayExport(disk, f, mode, mem[1]) THEN orig
               ELSE IF mode = "a" /\ f \in DOMAIN orig THEN (f :> ((mem[1].name :> mem[1]) @@ orig[f])) @@ orig
               ELSE (f :> (mem[1].name :> mem[1])) @@ orig
    /\ UNCHANGED mem
Import(f, name) ==
    /\ f \in DOMAIN disk /\ name \in DOMAIN disk[f] /\ Do([op |-> "import", file |-> f, name |-> name])
    /\ mem' = <<Restored(disk[f][name])>> /\ UNCHANGED <<disk, orig>>
Next == \/ \E t \in DOMAIN Tables : Load(t) \/ Add(t)
        \/ \E f \in Files, mode \in {"w", "a", "x"} : Export(f, mode)
        \/ \E f \in Files : \E name \in (IF f \in DOMAIN disk THEN DOMAIN disk[f] ELSE {}) : Import(f, name)
Spec == Init /\ [][Next]_<<mem, disk, hist, orig>>

\* ---- what holds ------------------------------------------------------------------
Pairs == {p \in (DOMAIN disk) \X {Tables[t].name : t \in DOMAIN Tables} : p[2] \in DOMAIN disk[p[1]]}
\* the sums of a nuclide are those of its parts (a table that brought a reaction the others lack breaks this)
Consistent(o) == \A mt \in DOMAIN o.rx : \A T \in DOMAIN o.rx[mt].xs :
    LET rest == [m \in DOMAIN o.rx \ {mt} |-> o.rx[m]] IN
    ~LiveAt(rest, mt, T) \/ o.rx[mt].xs[T] = XsOf(rest, mt, T)
\* nothing of the exported nuclide is lost: every cross section at every temperature comes back
Lossless == \A p \in Pairs :
    LET o == orig[p[1]][p[2]]
        r == Restored(disk[p[1]][p[2]]) IN
    /\ r.temps = o.temps /\ r.urr = o.urr /\ r.name = o.name
    /\ DOMAIN o.rx \subseteq DOMAIN r.rx
    /\ \A mt \in DOMAIN o.rx : ~o.rx[mt].red => r.rx[mt] = o.rx[mt]
    /\ Consistent(o) => \A mt \in DOMAIN o.rx : r.rx[mt].xs = o.rx[mt].xs
\* every rebuilt sum of the restored nuclide is the sum of the parts it has
SumsHold == \A p \in Pairs :
    LET s == disk[p[1]][p[2]]
        r == Restored(s).rx IN
    \A mt \in DOMAIN r \ DOMAIN s.rx : LET parts == R!Parts(mt) \cap DOMAIN r IN
        \A T \in DOMAIN r[mt].xs : r[mt].xs[T] = Total([q \in parts \cap At(r, T) |-> r[q].xs[T]])
\* rebuilding one sum after the other reaches the same
Rebuilds == \A p \in Pairs : Rebuilt(disk[p[1]][p[2]]) = Restored(disk[p[1]][p[2]])
\* a second round trip changes nothing
Stable == \A p \in Pairs : LET r == Restored(disk[p[1]][p[2]]) IN Restored(Stored(r)) = r
\* a file only changes by an export to it, and only in the exported nuclide unless it is replaced
Isolated == [][\A f \in DOMAIN disk : disk'[f] # disk[f] =>
    LET h == hist'[Len(hist')] IN h.op = "export" /\ h.file = f /\
    (h.mode = "a" => \A name \in DOMAIN disk[f] : disk'[f][name] = disk[f][name])]_<<mem, disk, hist, orig>>
==============================================================================

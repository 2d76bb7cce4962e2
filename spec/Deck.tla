---------------------------------- MODULE Deck ----------------------------------
(* NJOY input decks as data flow between tapes.  A deck is a sequence of module  *)
(* calls; executing it symbolically says what every tape holds: which stages of  *)
(* processing, which temperatures, which covariance, which groups and weights.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [k |-> "", st |-> {}, temps |-> <<>>, g |-> 0, w |-> 0, mf |-> 0, mts |-> <<>>, temp |-> 0, rx |-> ""]
ENDF == [Empty EXCEPT !.k = "endf"]
TSL == [Empty EXCEPT !.k = "tsl"]
RangeOf(s) == {s[i] : i \in 1..Len(s)}

Reads(m) ==
    CASE m.m = "reconr" -> {m.t[1]}
      [] m.m \in {"broadr", "heatr", "purr", "groupr"} -> {m.t[1], m.t[2]}
      [] m.m = "thermr" -> {m.t[1], m.t[2]} \ {0}
      [] m.m = "errorr" -> {m.t[1], m.t[2], m.t[3]} \ {0}
      [] m.m = "covr" -> {m.t[1]}
      [] m.m = "viewr" -> {m.t[1]}
      [] m.m = "acer" -> {m.t[1], m.t[2]}
      [] OTHER -> {}
Writes(m) ==
    CASE m.m = "reconr" -> {m.t[2]}
      [] m.m \in {"broadr", "heatr", "purr", "thermr"} -> {m.t[3]}
      [] m.m = "groupr" -> {m.t[4]}
      [] m.m = "errorr" -> {m.t[4]}
      [] m.m = "covr" -> IF m.kind = "plot" THEN {m.t[3]} ELSE {m.t[2]}
      [] m.m = "viewr" -> {m.t[2]}
      [] m.m = "acer" -> {m.t[4], m.t[5]}
      [] OTHER -> {}

\* what a module writes on tape n, given what its inputs hold
Makes(tp, m, n) ==
    CASE m.m = "reconr" -> [Empty EXCEPT !.k = "pendf"]
      [] m.m = "broadr" -> [tp[m.t[2]] EXCEPT !.st = @ \cup {"broadr"}, !.temps = m.temps]
      [] m.m = "heatr" -> [tp[m.t[2]] EXCEPT !.st = @ \cup {"heatr"}]
      [] m.m = "purr" -> [tp[m.t[2]] EXCEPT !.st = @ \cup {"purr"}]
      [] m.m = "thermr" -> [tp[m.t[2]] EXCEPT !.st = @ \cup {IF m.t[1] = 0 THEN "free" ELSE "bound"}]
      [] m.m = "groupr" -> [Empty EXCEPT !.k = "gendf", !.st = tp[m.t[2]].st, !.temps = m.temps, !.g = m.g, !.w = m.w, !.rx = m.rx]
      [] m.m = "errorr" -> [Empty EXCEPT !.k = "cov", !.st = tp[m.t[3]].st, !.g = m.g, !.w = m.w, !.mf = m.mf, !.temp = m.temp]
      [] m.m = "covr" -> IF m.kind = "plot" THEN [tp[m.t[1]] EXCEPT !.k = "plot", !.mts = m.mts] ELSE [tp[m.t[1]] EXCEPT !.k = "covlib"]
      [] m.m = "viewr" -> [tp[m.t[1]] EXCEPT !.k = "eps"]
      [] m.m = "acer" -> [tp[m.t[2]] EXCEPT !.k = IF n = m.t[4] THEN "ace" ELSE "dir", !.temp = m.temp, !.temps = <<>>]

\* what is wrong with a module call
Wrong(tp, m, mat) == UNION {
    IF m.mat \in {0, mat} THEN {} ELSE {"a module is run for another material"},
    IF Reads(m) \subseteq DOMAIN tp THEN {} ELSE {"a module reads a tape that nothing wrote"},
    IF Writes(m) \cap DOMAIN tp = {} THEN {} ELSE {"a module writes over a tape"},
    IF ~(Reads(m) \subseteq DOMAIN tp) THEN {} ELSE
    CASE m.m = "reconr" -> IF tp[m.t[1]].k = "endf" THEN {} ELSE {"a module does not get the evaluation"}
      [] m.m \in {"broadr", "heatr"} ->
            IF tp[m.t[1]].k = "endf" /\ tp[m.t[2]].k = "pendf" THEN {} ELSE {"a module does not continue from a pointwise tape"}
      [] m.m = "purr" -> UNION {
            IF tp[m.t[1]].k = "endf" /\ tp[m.t[2]].k = "pendf" THEN {} ELSE {"a module does not continue from a pointwise tape"},
            IF "broadr" \notin tp[m.t[2]].st \/ m.temps = tp[m.t[2]].temps THEN {} ELSE {"probability tables at other temperatures than the data"}}
      [] m.m = "thermr" -> UNION {
            IF tp[m.t[2]].k = "pendf" /\ "broadr" \in tp[m.t[2]].st THEN {} ELSE {"a module does not continue from a pointwise tape"},
            IF m.temps = tp[m.t[2]].temps THEN {} ELSE {"thermal data at other temperatures than the data"},
            IF m.t[1] = 0 \/ (tp[m.t[1]].k = "tsl" /\ "free" \in tp[m.t[2]].st) THEN {} ELSE {"bound scattering is not made from the thermal evaluation"}}
      [] m.m = "groupr" -> UNION {
            IF tp[m.t[1]].k = "endf" /\ tp[m.t[2]].k = "pendf" /\ "broadr" \in tp[m.t[2]].st THEN {} ELSE {"group averages are not made from broadened data"},
            IF RangeOf(m.temps) \subseteq RangeOf(tp[m.t[2]].temps) THEN {} ELSE {"group averages at a temperature the data do not have"}}
      [] m.m = "errorr" ->
            IF m.t[3] = 0 \/ tp[m.t[3]].k # "gendf" \/ tp[m.t[1]].k # "endf" THEN {"covariances are not made from group averages"}
            ELSE LET gd == tp[m.t[3]] IN UNION {
              IF gd.g = m.g /\ gd.w = m.w THEN {} ELSE {"covariances in other groups or weights than their group averages"},
              IF m.temp \in RangeOf(gd.temps) THEN {} ELSE {"covariances at a temperature the group averages do not have"},
              IF m.mf = 33 \/ gd.rx = "nuchi" THEN {} ELSE {"nu or chi covariances without nu and chi group averages"},
              IF m.mf = 33 \/ (m.t[2] # 0 /\ tp[m.t[2]].k = "pendf" /\ "broadr" \in tp[m.t[2]].st) THEN {} ELSE {"nu or chi covariances without pointwise data"},
              IF m.mf # 33 \/ gd.rx = "all" THEN {} ELSE {"cross section covariances without group cross sections"}}
      [] m.m = "covr" -> IF tp[m.t[1]].k = "cov" THEN {} ELSE {"covr does not get covariances"}
      [] m.m = "viewr" -> IF tp[m.t[1]].k = "plot" THEN {} ELSE {"viewr does not get plot commands"}
      [] m.m = "acer" -> UNION {
            IF tp[m.t[1]].k = "endf" /\ tp[m.t[2]].k = "pendf" THEN {} ELSE {"an ACE file is not made from pointwise data"},
            IF tp[m.t[2]].st = {} \/ m.temp \in RangeOf(tp[m.t[2]].temps) \/ "broadr" \notin tp[m.t[2]].st THEN {} ELSE {"an ACE file at a temperature the data do not have"}}
      [] OTHER -> {"unknown module"}}

\* one module executed: tapes it cannot write for want of input are written empty
After(tp, m) ==
    LET ok == Reads(m) \subseteq DOMAIN tp IN
    [n \in DOMAIN tp \cup Writes(m) |-> IF n \in Writes(m) THEN (IF ok THEN Makes(tp, m, n) ELSE Empty) ELSE tp[n]]

RECURSIVE Execute(_, _, _, _)
Execute(tp, bad, deck, mat) ==
    IF deck = <<>> THEN [tp |-> tp, bad |-> bad]
    ELSE Execute(After(tp, Head(deck)), bad \cup Wrong(tp, Head(deck), mat), Tail(deck), mat)

(***************************************************************************)
(* What a request is owed                                                  *)
(***************************************************************************)
\* o: broadr heatr purr acer errorr nu chi pendf (BOOLEAN), temps, plots (reaction
\* lists), iwt, groups, weights (given?); tn, ta: temperatures as they appear in names
Refused(o) == o.errorr /\ (~o.groups \/ (o.iwt = 1 /\ ~o.weights) \/ ~o.broadr)
Stages(o) == (IF o.broadr THEN {"broadr"} ELSE {}) \cup (IF o.heatr THEN {"heatr"} ELSE {}) \cup (IF o.purr THEN {"purr"} ELSE {})
WeightOf(o) == IF o.iwt = 1 THEN 1 ELSE 100 + o.iwt
Cov(o, mf, k, t, mts) == [Empty EXCEPT !.k = k, !.st = {"broadr"}, !.g = 1, !.w = WeightOf(o), !.mf = mf, !.temp = t, !.mts = mts]
Owed(o) ==
    LET N == 1..Len(o.temps)
        last == Len(o.temps)
        S(c, x) == IF c THEN x ELSE {} IN UNION {
    S(o.pendf, {[name |-> "pendf.out", c |-> [Empty EXCEPT !.k = "pendf"]]}),
    S(o.errorr, {[name |-> "covr_" \o o.tn[i] \o ".txt", c |-> Cov(o, 33, "covlib", o.temps[i], <<>>)] : i \in N}),
    S(o.errorr /\ o.plots # <<>>, {[name |-> "viewr_" \o o.tn[i] \o ".eps", c |-> Cov(o, 33, "eps", o.temps[i], o.plots)] : i \in N}),
    S(o.errorr /\ o.nu, {[name |-> "covr_nu_" \o o.tn[last] \o ".txt", c |-> Cov(o, 31, "covlib", o.temps[last], <<>>)],
                         [name |-> "viewr_nu_" \o o.tn[last] \o ".eps", c |-> Cov(o, 31, "eps", o.temps[last], <<452>>)]}),
    S(o.errorr /\ o.chi, {[name |-> "covr_chi_" \o o.tn[last] \o ".txt", c |-> Cov(o, 35, "covlib", o.temps[last], <<>>)],
                          [name |-> "viewr_chi_" \o o.tn[last] \o ".eps", c |-> Cov(o, 35, "eps", o.temps[last], <<>>)]}),
    S(o.acer, {[name |-> "ace_" \o o.ta[i], c |-> [Empty EXCEPT !.k = "ace", !.st = Stages(o), !.temp = o.temps[i]]] : i \in N}),
    S(o.acer, {[name |-> "xsdir_" \o o.ta[i], c |-> [Empty EXCEPT !.k = "dir", !.st = Stages(o), !.temp = o.temps[i]]] : i \in N})}

(***************************************************************************)
(* A reference writer of decks, and its execution module by module         *)
(***************************************************************************)
CONSTANTS MaxTemps, Weights
VARIABLES opt, deck, tapes, bad
dvars == <<opt, deck, tapes, bad>>

Call(m, t) == [m |-> m, t |-> t, mat |-> 1, temps |-> <<>>, temp |-> 0, g |-> 0, w |-> 0, mf |-> 0, kind |-> "", mts |-> <<>>, rx |-> ""]
PerTemp(o, n, i) ==     \* n: next free tape
    <<[Call("groupr", <<20, 22, 0, n>>) EXCEPT !.temps = o.temps, !.g = 1, !.w = WeightOf(o), !.rx = "all"],
      [Call("errorr", <<20, 0, n, n + 1>>) EXCEPT !.temp = o.temps[i], !.g = 1, !.w = WeightOf(o), !.mf = 33],
      [Call("covr", <<n + 1, n + 2>>) EXCEPT !.kind = "data"]>>
    \o IF o.plots = <<>> THEN <<>> ELSE
    <<[Call("covr", <<n + 1, 0, n + 3>>) EXCEPT !.kind = "plot", !.mts = o.plots], Call("viewr", <<n + 3, n + 4>>)>>
Extra(o, n, mf, gt, mts) ==
    <<[Call("errorr", <<20, 22, gt, n>>) EXCEPT !.temp = o.temps[Len(o.temps)], !.g = 1, !.w = WeightOf(o), !.mf = mf],
      [Call("covr", <<n, 0, n + 1>>) EXCEPT !.kind = "plot", !.mts = mts], Call("viewr", <<n + 1, n + 2>>),
      [Call("covr", <<n, n + 3>>) EXCEPT !.kind = "data"]>>
RECURSIVE Temps(_, _, _)
Temps(o, n, i) == IF i > Len(o.temps) THEN <<>> ELSE PerTemp(o, n, i) \o Temps(o, n + 5, i + 1)
\* tapes: 20 evaluation, 21 reconr, 22 broadr, 23 heatr, 24 purr, 30.. covariances, 60.. nu and chi, 80.. ACE
Newest(o) == IF o.purr THEN 24 ELSE IF o.heatr THEN 23 ELSE IF o.broadr THEN 22 ELSE 21
Reference(o) ==
    <<Call("reconr", <<20, 21>>)>>
    \o (IF o.broadr THEN <<[Call("broadr", <<20, 21, 22>>) EXCEPT !.temps = o.temps]>> ELSE <<>>)
    \o (IF o.errorr THEN Temps(o, 30, 1)
            \o (IF o.nu \/ o.chi THEN <<[Call("groupr", <<20, 22, 0, 60>>) EXCEPT !.temps = o.temps, !.g = 1, !.w = WeightOf(o), !.rx = "nuchi"]>> ELSE <<>>)
            \o (IF o.nu THEN Extra(o, 61, 31, 60, <<452>>) ELSE <<>>) \o (IF o.chi THEN Extra(o, 65, 35, 60, <<>>) ELSE <<>>) ELSE <<>>)
    \o (IF o.heatr THEN <<Call("heatr", <<20, IF o.broadr THEN 22 ELSE 21, 23>>)>> ELSE <<>>)
    \o (IF o.purr THEN <<[Call("purr", <<20, IF o.heatr THEN 23 ELSE IF o.broadr THEN 22 ELSE 21, 24>>) EXCEPT !.temps = o.temps]>> ELSE <<>>)
    \o (IF o.acer THEN [i \in 1..Len(o.temps) |-> [Call("acer", <<20, Newest(o), 0, 80 + 2 * i, 81 + 2 * i>>) EXCEPT !.temp = o.temps[i]]] ELSE <<>>)
Names(ts) == [i \in 1..Len(ts) |-> ToString(ts[i])]
Requests ==
    {o \in [broadr : BOOLEAN, heatr : BOOLEAN, purr : BOOLEAN, acer : BOOLEAN, errorr : BOOLEAN, nu : BOOLEAN, chi : BOOLEAN, pendf : BOOLEAN,
            temps : {[i \in 1..n |-> 100 * i] : n \in 1..MaxTemps}, plots : {<<>>, <<18, 102>>}, iwt : Weights, groups : BOOLEAN, weights : BOOLEAN] :
        \* what only matters with covariances is varied only with them
        /\ (~o.errorr => ~o.nu /\ ~o.chi /\ o.plots = <<>> /\ o.iwt # 1 /\ o.groups /\ ~o.weights)
        /\ (o.errorr => ~o.pendf /\ (o.weights = (o.iwt = 1) \/ (o.iwt = 1 /\ ~o.nu)))
        /\ (~o.groups => ~o.nu /\ ~o.chi /\ ~o.purr)}

\* bound scatterers by the MAT number of their evaluation: name, nuclides, kinds of atoms
Moderators ==
    1 :> [name |-> "hh2o", za |-> <<1001>>, nmix |-> 1] @@
    2 :> [name |-> "parah", za |-> <<1001>>, nmix |-> 1] @@
    3 :> [name |-> "orthoh", za |-> <<1001>>, nmix |-> 1] @@
    5 :> [name |-> "hyh2", za |-> <<1001>>, nmix |-> 1] @@
    7 :> [name |-> "hzrh", za |-> <<1001>>, nmix |-> 1] @@
    8 :> [name |-> "hcah2", za |-> <<1001>>, nmix |-> 1] @@
    10 :> [name |-> "hice", za |-> <<1001>>, nmix |-> 1] @@
    11 :> [name |-> "dd2o", za |-> <<1002>>, nmix |-> 1] @@
    12 :> [name |-> "parad", za |-> <<1002>>, nmix |-> 1] @@
    13 :> [name |-> "orthod", za |-> <<1002>>, nmix |-> 1] @@
    26 :> [name |-> "be", za |-> <<4009>>, nmix |-> 1] @@
    27 :> [name |-> "bebeo", za |-> <<4009>>, nmix |-> 1] @@
    31 :> [name |-> "graph", za |-> <<6000, 6012, 6013>>, nmix |-> 1] @@
    33 :> [name |-> "lch4", za |-> <<1001>>, nmix |-> 1] @@
    34 :> [name |-> "sch4", za |-> <<1001>>, nmix |-> 1] @@
    37 :> [name |-> "hch2", za |-> <<1001>>, nmix |-> 1] @@
    39 :> [name |-> "lucite", za |-> <<1001>>, nmix |-> 1] @@
    40 :> [name |-> "benz", za |-> <<1001, 6000, 6012>>, nmix |-> 2] @@
    41 :> [name |-> "od2o", za |-> <<8016, 8017, 8018>>, nmix |-> 1] @@
    43 :> [name |-> "sisic", za |-> <<14028, 14029, 14030>>, nmix |-> 1] @@
    44 :> [name |-> "csic", za |-> <<6000, 6012, 6013>>, nmix |-> 1] @@
    46 :> [name |-> "obeo", za |-> <<8016, 8017, 8018>>, nmix |-> 1] @@
    47 :> [name |-> "sio2-a", za |-> <<8016, 8017, 8018, 14028, 14029, 14030>>, nmix |-> 3] @@
    48 :> [name |-> "uuo2", za |-> <<92238>>, nmix |-> 1] @@
    49 :> [name |-> "sio2-b", za |-> <<8016, 8017, 8018, 14028, 14029, 14030>>, nmix |-> 3] @@
    50 :> [name |-> "oice", za |-> <<8016, 8017, 8018>>, nmix |-> 1] @@
    52 :> [name |-> "mg24", za |-> <<12024>>, nmix |-> 1] @@
    53 :> [name |-> "al27", za |-> <<13027>>, nmix |-> 1] @@
    55 :> [name |-> "yyh2", za |-> <<39089>>, nmix |-> 1] @@
    56 :> [name |-> "fe56", za |-> <<26056>>, nmix |-> 1] @@
    58 :> [name |-> "zrzrh", za |-> <<40000, 40090, 40091, 40092, 40094, 40096>>, nmix |-> 1] @@
    59 :> [name |-> "cacah2", za |-> <<20040, 20042, 20043, 20044, 20046, 20048>>, nmix |-> 1] @@
    75 :> [name |-> "ouo2", za |-> <<8016, 8017, 8018>>, nmix |-> 1]

WithNames(o) == [x \in DOMAIN o \cup {"tn", "ta"} |-> IF x \in {"tn", "ta"} THEN Names(o.temps) ELSE o[x]]
DInit == /\ opt \in {WithNames(o) : o \in Requests}
         /\ deck = IF Refused(opt) THEN <<>> ELSE Reference(opt)
         /\ tapes = (20 :> ENDF) /\ bad = {}
Step == /\ deck # <<>>
        /\ tapes' = After(tapes, Head(deck)) /\ bad' = bad \cup Wrong(tapes, Head(deck), 1)
        /\ deck' = Tail(deck) /\ UNCHANGED opt
DNext == Step
DSpec == DInit /\ [][DNext]_dvars

NothingWrong == bad = {}
\* a tape, once written, keeps its contents
Stable == [][\A n \in DOMAIN tapes : tapes'[n] = tapes[n]]_dvars
\* every product owed is on some tape, exactly once
Delivered == deck = <<>> /\ ~Refused(opt) =>
    \A p \in Owed(opt) : Cardinality({n \in DOMAIN tapes : tapes[n] = p.c}) >= 1
Unambiguous == \A p, q \in Owed(opt) : p.name = q.name => p = q
=================================================================================

------------------------------- MODULE Library -------------------------------
(* A data library: files registered under the paths the user spells, listed in *)
(* an XML file, read back from anywhere, and moved with their directory.        *)
(* Paths are sequences of names; absolute ones start at the scratch directory.  *)
EXTENDS Integers, Sequences, FiniteSets

\* the files there are: directory below the root, name, type, materials in order
Files == << [dir |-> <<>>, name |-> "n0", type |-> "neutron", mats |-> <<"U235">>],
            [dir |-> <<"a">>, name |-> "n1", type |-> "neutron", mats |-> <<"Pu239", "U235", "U238">>],
            [dir |-> <<"a", "b">>, name |-> "t1", type |-> "thermal", mats |-> <<"c_H_in_H2O">>],
            [dir |-> <<"a", "b">>, name |-> "n1", type |-> "photon", mats |-> <<"Pu", "U">>],
            [dir |-> <<"ab">>, name |-> "w1", type |-> "wmp", mats |-> <<"U238">>],
            [dir |-> <<"ab">>, name |-> "bad", type |-> "", mats |-> <<>>] >>     \* not a data file
Dirs == {<<>>, <<"a">>, <<"a", "b">>, <<"ab">>}
Materials == {"U235", "U238", "U", "Pu", "Pu239", "U23", "c_H_in_H2O"}
Good(f) == f \in DOMAIN Files /\ Files[f].type # ""

RECURSIVE NormFrom(_, _, _)
NormFrom(c, i, acc) ==
    IF i > Len(c) THEN acc
    ELSE CASE c[i] = "." -> NormFrom(c, i + 1, acc)
           [] c[i] = ".." -> NormFrom(c, i + 1, SubSeq(acc, 1, Len(acc) - 1))
           [] OTHER -> NormFrom(c, i + 1, Append(acc, c[i]))
Norm(c) == NormFrom(c, 1, <<>>)
RECURSIVE Common(_, _)
Common(p, r) == IF p = <<>> \/ r = <<>> \/ Head(p) # Head(r) THEN 0 ELSE 1 + Common(Tail(p), Tail(r))
Drop(p, k) == SubSeq(p, k + 1, Len(p))
Front(p) == SubSeq(p, 1, Len(p) - 1)
\* the way from directory d to p (both absolute and normal)
Rel(d, p) == LET k == Common(d, p) IN [i \in 1..(Len(d) - k) |-> ".."] \o Drop(p, k)

\* how a user may write the absolute path p in the working directory cwd
Spell(cwd, p, how) ==
    CASE how = "abs" -> [abs |-> TRUE, c |-> p]
      [] how = "rel" -> [abs |-> FALSE, c |-> Rel(cwd, p)]
      [] how = "dot" -> [abs |-> FALSE, c |-> <<".">> \o Rel(cwd, p)]
      [] OTHER -> [abs |-> TRUE, c |-> Front(p) \o <<"..", p[Len(p) - 1], p[Len(p)]>>]       \* "up"
Resolve(cwd, sp) == IF sp.abs THEN Norm(sp.c) ELSE Norm(cwd \o sp.c)
FileAt(s, f) == <<s.b>> \o Files[f].dir \o <<Files[f].name>>

\* the directory all files of the library are spelled in
RECURSIVE Longest(_, _)
Longest(lib, k) == IF k = 1 THEN Front(lib[1].sp.c)
                   ELSE LET p == Longest(lib, k - 1) IN SubSeq(p, 1, Common(p, Front(lib[k].sp.c)))
CommonDir(s) ==
    IF s.lib = <<>> \/ Cardinality({s.lib[i].sp.abs : i \in DOMAIN s.lib}) = 2 THEN s.cwd
    ELSE Resolve(s.cwd, [abs |-> s.lib[1].sp.abs, c |-> Longest(s.lib, Len(s.lib))])

\* the XML file in directory d: its own directory is meant if it is the common one
MakeXml(s, d) ==
    LET D == CommonDir(s) IN
    [portable |-> D = <<s.b>> \o d, at |-> D, b |-> s.b,
     ents |-> [i \in DOMAIN s.lib |-> [rel |-> Rel(D, Resolve(s.cwd, s.lib[i].sp)), type |-> s.lib[i].type, mats |-> s.lib[i].mats]]]
Listed(s, d) == [i \in DOMAIN s.lib |-> [p |-> Resolve(s.cwd, s.lib[i].sp), type |-> s.lib[i].type, mats |-> s.lib[i].mats]]
ReadXml(x, sp) ==
    [i \in DOMAIN x.ents |-> [sp |-> IF x.portable THEN [abs |-> sp.abs, c |-> Front(sp.c) \o x.ents[i].rel]
                                     ELSE [abs |-> TRUE, c |-> x.at \o x.ents[i].rel],
                              type |-> x.ents[i].type, mats |-> x.ents[i].mats]]

Start == [b |-> "r", cwd |-> <<"r">>, lib |-> <<>>, xml |-> [d \in {} |-> 0]]
XmlAt(s, d) == <<s.b>> \o d \o <<"cross_sections.xml">>
HasIn(lib, m) == {i \in DOMAIN lib : \E j \in DOMAIN lib[i].mats : lib[i].mats[j] = m}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Fails(s, op) == CASE op.k = "reg" -> ~Good(op.f)
                  [] op.k = "import" -> op.how = "none" \/ op.d \notin DOMAIN s.xml
                  [] OTHER -> FALSE
Allowed(s, op) == CASE op.k = "chdir" -> \A i \in DOMAIN s.lib : s.lib[i].sp.abs
                    [] op.k = "move" -> s.lib = <<>>
                    [] op.k = "import" -> op.d \in DOMAIN s.xml => s.xml[op.d].portable \/ s.xml[op.d].b = s.b
                    [] op.k = "reg" -> Len(s.lib) < 5
                    [] OTHER -> TRUE
Swap(b) == IF b = "r" THEN "s" ELSE "r"
Do(s, op) ==
    IF Fails(s, op) THEN s ELSE
    CASE op.k = "new" -> [s EXCEPT !.lib = <<>>]
      [] op.k = "reg" -> [s EXCEPT !.lib = Append(@, [sp |-> Spell(s.cwd, FileAt(s, op.f), op.how), type |-> Files[op.f].type, mats |-> Files[op.f].mats])]
      [] op.k = "chdir" -> [s EXCEPT !.cwd = <<s.b>> \o op.d]
      [] op.k = "move" -> [s EXCEPT !.b = Swap(@), !.cwd = <<Swap(s.b)>> \o Tail(@)]
      [] op.k = "export" -> [s EXCEPT !.xml = [d \in DOMAIN s.xml \cup {op.d} |-> IF d = op.d THEN MakeXml(s, d) ELSE s.xml[d]]]
      [] op.k = "import" -> [s EXCEPT !.lib = ReadXml(s.xml[op.d], Spell(s.cwd, XmlAt(s, op.d), IF op.how = "env" THEN "abs" ELSE op.how))]
      [] OTHER -> s

(***************************************************************************)
CONSTANTS MaxOps, Hows
VARIABLES st, was, ops      \* was: for each XML file what was in the library it was written from, below the root
lvars == <<st, was, ops>>
Op(k, f, d, how, m) == [k |-> k, f |-> f, d |-> d, how |-> how, m |-> m]
AllOps == {Op("new", 0, <<>>, "", ""), Op("move", 0, <<>>, "", "")}
    \cup {Op("reg", f, <<>>, how, "") : f \in 1..(Len(Files) + 1), how \in Hows}
    \cup {Op("chdir", 0, d, "", "") : d \in Dirs}
    \cup {Op("export", 0, d, how, "") : d \in Dirs, how \in Hows \ {"up"}}
    \cup {Op("import", 0, d, how, "") : d \in Dirs, how \in (Hows \ {"up"}) \cup {"env", "none"}}
    \cup {Op("find", 0, <<>>, "", m) : m \in Materials}
Below(p) == Tail(p)
LInit == st = Start /\ was = [d \in {} |-> 0] /\ ops = <<>>
LNext == /\ Len(ops) < MaxOps
         /\ \E op \in AllOps : /\ Allowed(st, op)
                               /\ st' = Do(st, op)
                               /\ ops' = Append(ops, op)
                               /\ was' = IF op.k # "export" THEN was
                                         ELSE [d \in DOMAIN was \cup {op.d} |-> IF d = op.d THEN [i \in DOMAIN st.lib |-> Below(Resolve(st.cwd, st.lib[i].sp))] ELSE was[d]]
LSpec == LInit /\ [][LNext]_lvars

Readable(d) == st.xml[d].portable \/ st.xml[d].b = st.b
\* from whatever directory and however its path is spelled, a list denotes the files it was written for
RoundTrip == \A d \in DOMAIN st.xml : Readable(d) => \A how \in {"abs", "rel", "dot"} : \A c \in Dirs :
    LET cwd == <<st.b>> \o c
        lib == ReadXml(st.xml[d], Spell(cwd, XmlAt(st, d), how)) IN
    /\ Len(lib) = Len(was[d])
    /\ \A i \in DOMAIN lib : Resolve(cwd, lib[i].sp) = <<st.b>> \o was[d][i]
EntriesAreFiles == \A i \in DOMAIN st.lib : \E f \in DOMAIN Files :
    Good(f) /\ Resolve(st.cwd, st.lib[i].sp) = FileAt(st, f) /\ st.lib[i].type = Files[f].type /\ st.lib[i].mats = Files[f].mats
===============================================================================

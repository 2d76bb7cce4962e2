------------------------------ MODULE MC_Thermal ------------------------------
(* Tables of all shapes, laid out word by word; and histories of a material.  *)
EXTENDS Thermal, Json

CONSTANTS MaxE, MaxOut, MaxOps
VARIABLES d, todo, f, mem, file, hist
vars == <<d, todo, f, mem, file, hist>>

Shapes == {[mode |-> m, ne |-> e, no |-> o, nm |-> c, el |-> x, en |-> n, em |-> k, gap |-> g] :
    m \in {"equal", "skewed", "continuous"}, e \in 1..MaxE, o \in 1..MaxOut, c \in 1..3,
    x \in {"none", "bragg", "table"}, n \in 1..2, k \in 1..2, g \in {0, 1}}
Proper(s) == /\ s.el # "table" => s.em = 1
             /\ s.el = "none" => s.en = 1 /\ s.em = 1

\* numbers that tell where they belong
En(i) == i
Xs(i) == 40 + i
Eo(i, j) == (10 * i) + j
Mu(i, j, k) == (100 * i) + (10 * j) + k
Pd(i, j) == 300 + (10 * i) + j
Cd(i, j) == 600 + (10 * i) + j
Ee(i) == 20 + i
Ey(i) == 80 + i
Em(i, k) == 900 + (10 * i) + k
\* continuous: the i-th energy has this many
Cnt(s, i) == IF i % 2 = 1 THEN s.no ELSE (s.no % MaxOut) + 1

\* the parts of a table in the order they are put down
Parts(s) == <<"inelastic">> \o (IF s.el = "none" THEN <<>> ELSE <<"elastic">>) \o (IF s.el = "table" THEN <<"cosines">> ELSE <<>>) \o <<"out">>
Nxs0(s) == [i \in 1..16 |->
    CASE i = 3 -> (IF s.mode = "continuous" THEN s.nm + 1 ELSE s.nm - 1) [] i = 4 -> (IF s.mode = "continuous" THEN 0 ELSE s.no)
      [] i = 5 -> (IF s.el = "bragg" THEN 4 ELSE 3) [] i = 6 -> (IF s.el = "table" THEN s.em - 1 ELSE -1)
      [] i = 7 -> (CASE s.mode = "equal" -> 0 [] s.mode = "skewed" -> 1 [] OTHER -> 2) [] OTHER -> 0]
Whole(n) == n * U
Cat(n, F(_)) == LET RECURSIVE C(_)
                    C(i) == IF i > n THEN <<>> ELSE F(i) \o C(i + 1) IN C(1)
Seq1(n, F(_)) == [i \in 1..n |-> F(i)]
Cosines(s, i, j) == Seq1(s.nm, LAMBDA k : Mu(i, j, k))
RowsOf(s, i) == Cat(IF s.mode = "continuous" THEN Cnt(s, i) ELSE s.no,
    LAMBDA j : (IF s.mode = "continuous" THEN <<Eo(i, j), Pd(i, j), Cd(i, j)>> ELSE <<Eo(i, j)>>) \o Cosines(s, i, j))
\* words before the i-th energy's rows
RECURSIVE Before(_, _)
Before(s, i) == IF i = 1 THEN 0 ELSE Before(s, i - 1) + Cnt(s, i - 1) * (s.nm + 3) + s.gap
Body(s, p, start) ==
    CASE p = "inelastic" -> <<Whole(s.ne)>> \o Seq1(s.ne, En) \o Seq1(s.ne, Xs)
      [] p = "elastic" -> <<Whole(s.en)>> \o Seq1(s.en, Ee) \o Seq1(s.en, Ey)
      [] p = "cosines" -> Cat(s.en, LAMBDA i : Seq1(s.em, LAMBDA k : Em(i, k)))
      [] OTHER -> IF s.mode # "continuous" THEN Cat(s.ne, LAMBDA i : RowsOf(s, i))
                  ELSE Seq1(s.ne, LAMBDA i : Whole(start - 1 + 2 * s.ne + Before(s, i))) \o Seq1(s.ne, LAMBDA i : Whole(Cnt(s, i)))
                       \o Cat(s.ne, LAMBDA i : RowsOf(s, i) \o Seq1(s.gap, LAMBDA k : 7))
Pointer(p) == CASE p = "inelastic" -> 1 [] p = "elastic" -> 4 [] p = "cosines" -> 6 [] OTHER -> 3

\* histories: 3 tables of one material, the second close to the first in temperature, and one of another
Tabs == <<[name |-> "a", tmk |-> 293600], [name |-> "a", tmk |-> 294400], [name |-> "a", tmk |-> 600000], [name |-> "b", tmk |-> 900000]>>

Idle == mem = Nothing /\ file = Nothing /\ hist = <<>>
Init == \/ /\ d \in {s \in Shapes : Proper(s)} /\ todo = Parts(d)
           /\ f = [nxs |-> Nxs0(d), jxs |-> [i \in 1..32 |-> 0], x |-> <<>>, tmk |-> 293600, name |-> "a", awr |-> 1, pairs |-> <<>>]
           /\ Idle
        \/ d = [mode |-> "history"] /\ todo = <<>> /\ f = [x |-> <<>>] /\ Idle
Lay == d.mode # "history" /\ todo # <<>>
       /\ LET s == Len(f.x) + 1 + d.gap IN
          f' = [f EXCEPT !.x = @ \o [i \in 1..d.gap |-> 7] \o Body(d, todo[1], s), !.jxs[Pointer(todo[1])] = s]
       /\ todo' = Tail(todo) /\ UNCHANGED <<d, mem, file, hist>>
Do(op, k, m, fi) == /\ d.mode = "history" /\ Len(hist) < MaxOps /\ hist' = Append(hist, <<op, k>>) /\ mem' = m /\ file' = fi
                    /\ UNCHANGED <<d, todo, f>>
Load == \E k \in DOMAIN Tabs : Do("load", k, LoadOf(Tabs, k), file)
AddT == mem.name # "" /\ \E k \in DOMAIN Tabs : Do("add", k, AddOf(mem, Tabs, k), file)
Export == mem.name # "" /\ Do("export", 0, mem, mem)
Import == file.name # "" /\ Do("import", 0, file, file)
Next == Lay \/ Load \/ AddT \/ Export \/ Import
Spec == Init /\ [][Next]_vars

Done == d.mode # "history" /\ todo = <<>>
\* what is read is what was laid down
ReadsInelastic == Done => Inelastic(f) = [x |-> Ev(Seq1(d.ne, En)), y |-> Seq1(d.ne, Xs)] /\ Mode(f) = d.mode
ReadsDiscrete == Done /\ d.mode # "continuous" =>
    /\ EOut(f) = [i \in 1..d.ne |-> [j \in 1..d.no |-> Eo(i, j) * EV]]
    /\ MuOut(f) = [i \in 1..d.ne |-> [j \in 1..d.no |-> Cosines(d, i, j)]]
ReadsContinuous == Done /\ d.mode = "continuous" => \A i \in 1..d.ne : LET r == Dist(f)[i] IN
    /\ r.e = [j \in 1..Cnt(d, i) |-> Eo(i, j) * EV] /\ r.p = [j \in 1..Cnt(d, i) |-> Pd(i, j)]
    /\ r.c = [j \in 1..Cnt(d, i) |-> Cd(i, j)] /\ r.mu = [j \in 1..Cnt(d, i) |-> Cosines(d, i, j)]
ReadsElastic == Done => LET e == Elastic(f) IN
    IF d.el = "none" THEN e.k = "none" ELSE
    /\ e.k = d.el /\ e.x = Ev(Seq1(d.en, Ee)) /\ e.y = (IF d.el = "bragg" THEN Ev(Seq1(d.en, Ey)) ELSE Seq1(d.en, Ey))
    /\ d.el = "table" => e.mu = [i \in 1..d.en |-> Seq1(d.em, LAMBDA k : Em(i, k))]
    \* nothing scatters below the first edge; the factors grow
    /\ d.el = "bragg" => FactorAt(e, e.x[1], d.en) = 0 /\ FactorAt(e, e.x[d.en] + 1, d.en) = e.y[d.en]
                         /\ \A a \in 1..d.en : \A b \in a..d.en : FactorAt(e, e.x[a] + 1, d.en) <= FactorAt(e, e.x[b] + 1, d.en)
\* a material has tables of one name, at temperatures that are those of the tables, and keeps what it has
Sound(m) == m.name = "" \/ \A T \in DOMAIN m.temps : Temp(Tabs[m.temps[T]]) = T /\ Tabs[m.temps[T]].name = m.name
Library == Sound(mem) /\ Sound(file)
Keeps == [][hist' # hist /\ hist'[Len(hist')][1] = "add" => \A T \in DOMAIN mem.temps : mem'.temps[T] = mem.temps[T]]_vars
\* every known name stands for one material
Names == \A a, b \in DOMAIN Known : a # b => Known[a] \cap Known[b] = {}

EmitShape == Done => PrintT("CASE " \o ToJson([k |-> "shape", d |-> d]))
EmitHistory == d.mode = "history" /\ Len(hist) = MaxOps => PrintT("CASE " \o ToJson([k |-> "history", ops |-> hist]))
================================================================================

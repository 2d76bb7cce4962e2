----------------------------- MODULE FissionEnergy -----------------------------
(* Energy released in fission (MF=1, MT=458).  Each component is a polynomial   *)
(* of the neutron's energy, a formula of Sher and Beck if only its value at     *)
(* zero is given, or a table that replaces either.                              *)
(* Energies are m * 100 keV, releases in eV.  Coefficients are <<c0 (eV),       *)
(* c1 (1/1000), c2 (1e-8 / eV), c3 (1e-14 / eV^2)>>; nubar is a table in        *)
(* eighths or <<n0 (eighths), n1 (1e-8 / eV), n2 (1e-14 / eV^2)>>.              *)
EXTENDS Integers, Sequences, FiniteSets

Components == <<"fragments", "prompt_neutrons", "delayed_neutrons", "prompt_photons", "delayed_photons", "betas", "neutrinos">>
Names == {Components[i] : i \in DOMAIN Components}
\* the place of a component in the record; 8 and 9 (recoverable, total) follow from the others
Mod(x) == IF x < 0 THEN -x ELSE x

\* evaluations with three coefficients have been released with the last one left in MeV:
\* more than 100 MeV for a neutron of 5 MeV cannot be
Second(c, npoly) == IF npoly = 2 /\ Mod(c) > 400 THEN c \div 1000000 ELSE c
Poly(c, npoly) == [k |-> "poly", c |-> [i \in DOMAIN c |-> IF i = 3 THEN Second(c[i], npoly) ELSE c[i]]]
PolyAt(c, m) == c[1] + (IF Len(c) > 1 THEN 100 * c[2] * m ELSE 0) + (IF Len(c) > 2 THEN 100 * c[3] * m * m ELSE 0) + (IF Len(c) > 3 THEN 10 * c[4] * m * m * m ELSE 0)
Given(c, npoly) == IF npoly = 0 THEN [k |-> "sher", c |-> c] ELSE Poly(c, npoly)
Table(x, y) == [k |-> "tab", x |-> x, y |-> y]

\* 8.07 MeV for each prompt neutron more than at zero
Binding(nu, m) ==
    IF nu.k = "tab" THEN LET i == CHOOSE j \in DOMAIN nu.x : nu.x[j] = m IN 1008750 * (nu.y[i] - nu.y[1])
    ELSE (IF Len(nu.c) > 1 THEN 8070 * nu.c[2] * m ELSE 0) + (IF Len(nu.c) > 2 THEN 807 * nu.c[3] * m * m ELSE 0)
Sher(name, c0, nu, m) ==
    CASE name \in {"delayed_photons", "betas"} -> c0 - 7500 * m
      [] name = "neutrinos" -> c0 - 10500 * m
      [] name = "prompt_neutrons" -> c0 + 130700 * m - Binding(nu, m)
      [] OTHER -> c0
Known(f, name, nu, m) == IF f.k = "tab" THEN \E i \in DOMAIN f.x : f.x[i] = m
                         ELSE (f.k = "sher" /\ name = "prompt_neutrons" /\ nu.k = "tab") => \E i \in DOMAIN nu.x : nu.x[i] = m
Value(f, name, nu, m) ==
    CASE f.k = "tab" -> f.y[CHOOSE i \in DOMAIN f.x : f.x[i] = m]
      [] f.k = "sher" -> Sher(name, f.c[1], nu, m)
      [] OTHER -> PolyAt(f.c, m)

\* what is derived: v maps the components to their values at m
RECURSIVE SumOf(_, _)
SumOf(v, names) == IF names = <<>> THEN 0 ELSE v[names[1]] + SumOf(v, Tail(names))
Recoverable(v) == SumOf(v, SubSeq(Components, 1, 6))
Total(v) == SumOf(v, Components)
QPrompt(v, m) == v["fragments"] + v["prompt_neutrons"] + v["prompt_photons"] - 100000 * m
QRecoverable(v, m) == Recoverable(v) - 100000 * m
QTotal(v, m) == Total(v) - 100000 * m

(***************************************************************************)
(* Reading: the list record, then the tables one after the other           *)
(***************************************************************************)
AfterList(cs, npoly) == [n \in Names |-> Given(cs[CHOOSE i \in DOMAIN Components : Components[i] = n], npoly)]
Read(f, t) == IF t.ifc > 7 THEN f ELSE [f EXCEPT ![Components[t.ifc]] = Table(t.x, t.y)]
RECURSIVE ReadAll(_, _)
ReadAll(f, ts) == IF ts = <<>> THEN f ELSE ReadAll(Read(f, ts[1]), Tail(ts))

CONSTANTS Coefs, Nus, TableSets
VARIABLES cs, np, nu, todo, f
fvars == <<cs, np, nu, todo, f>>
FInit == /\ np \in 0..3 /\ nu \in Nus /\ todo \in TableSets
         /\ \E c \in Coefs : cs = [i \in 1..7 |-> [j \in 1..(np + 1) |-> IF j = 1 THEN c[1] + 1000 * i ELSE IF j = 3 /\ np # 2 THEN c[j] % 400 ELSE c[j]]]
         /\ f = AfterList(cs, np)
FNext == todo # <<>> /\ f' = Read(f, todo[1]) /\ todo' = Tail(todo) /\ UNCHANGED <<cs, np, nu>>
FSpec == FInit /\ [][FNext]_fvars

ValuesAt(m) == [n \in Names |-> Value(f[n], n, nu, m)]
Points == {m \in {0, 10, 20} : \A n \in Names : Known(f[n], n, nu, m)}
\* the neutrinos are what is not recovered
Lost == \A m \in Points : Total(ValuesAt(m)) - Recoverable(ValuesAt(m)) = ValuesAt(m)["neutrinos"]
\* a component without table starts at the value given
StartsThere == \A n \in Names : f[n].k # "tab" => Value(f[n], n, nu, 0) = cs[CHOOSE i \in DOMAIN Components : Components[i] = n][1]
\* no neutron changes the release by more than 100 MeV at 5 MeV when three coefficients are given
Sane == np = 2 => \A n \in Names : f[n].k = "poly" => Mod(f[n].c[3]) <= 400
\* prompt and delayed parts make up the recoverable energy
Parts == \A m \in Points : LET v == ValuesAt(m) IN QRecoverable(v, m) - QPrompt(v, m) = v["delayed_neutrons"] + v["delayed_photons"] + v["betas"]
================================================================================

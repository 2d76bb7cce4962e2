-------------------------------- MODULE Thermal --------------------------------
(* Thermal scattering tables (ACE tables of type t): what NXS and JXS say      *)
(* about XSS, and a material's data at several temperatures in memory and      *)
(* in files.  f is [nxs, jxs, x, tmk, name, awr, pairs]; values in 1/U,        *)
(* energies in 1/U MeV, the temperature in thousandths of a kelvin.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

U == 1024
\* 1/1024 MeV in sixteenths of an electronvolt
EV == 15625
IntAt(f, i) == f.x[i] \div U
Slice(f, i, n) == SubSeq(f.x, i, i + n - 1)
Ev(s) == [k \in DOMAIN s |-> s[k] * EV]

\* incoherent inelastic scattering
NE(f) == IntAt(f, f.jxs[1])
Energies(f) == Ev(Slice(f, f.jxs[1] + 1, NE(f)))
Inelastic(f) == [x |-> Energies(f), y |-> Slice(f, f.jxs[1] + 1 + NE(f), NE(f))]
Mode(f) == CASE f.nxs[7] = 0 -> "equal" [] f.nxs[7] = 1 -> "skewed" [] OTHER -> "continuous"

\* discrete outgoing energies, each with nxs[3] + 1 cosines
OutAt(f, i, j) == f.jxs[3] + (((i - 1) * f.nxs[4]) + j - 1) * (f.nxs[3] + 2)
EOut(f) == [i \in 1..NE(f) |-> [j \in 1..f.nxs[4] |-> f.x[OutAt(f, i, j)] * EV]]
MuOut(f) == [i \in 1..NE(f) |-> [j \in 1..f.nxs[4] |-> Slice(f, OutAt(f, i, j) + 1, f.nxs[3] + 1)]]
\* outgoing energies with densities, each with nxs[3] - 1 cosines; the place is that before the first
NOut(f, i) == IntAt(f, f.jxs[3] + NE(f) + i - 1)
Row(f, i, j) == Slice(f, IntAt(f, f.jxs[3] + i - 1) + 1 + ((j - 1) * (f.nxs[3] + 2)), f.nxs[3] + 2)
Dist(f) == [i \in 1..NE(f) |-> LET r == [j \in 1..NOut(f, i) |-> Row(f, i, j)] IN
    [e |-> [j \in DOMAIN r |-> r[j][1] * EV], p |-> [j \in DOMAIN r |-> r[j][2]], c |-> [j \in DOMAIN r |-> r[j][3]],
     mu |-> [j \in DOMAIN r |-> SubSeq(r[j], 4, Len(r[j]))]]]

\* elastic scattering: Bragg edges with sums of structure factors, or cross sections with cosines
HasElastic(f) == f.jxs[4] # 0
ElN(f) == IntAt(f, f.jxs[4])
ElX(f) == Ev(Slice(f, f.jxs[4] + 1, ElN(f)))
ElY(f) == Slice(f, f.jxs[4] + 1 + ElN(f), ElN(f))
Elastic(f) ==
    IF ~HasElastic(f) THEN [k |-> "none"]
    ELSE IF f.nxs[5] = 4 THEN [k |-> "bragg", x |-> ElX(f), y |-> Ev(ElY(f))]
    ELSE [k |-> "table", x |-> ElX(f), y |-> ElY(f),
          mu |-> [i \in 1..ElN(f) |-> Slice(f, f.jxs[6] + ((i - 1) * (f.nxs[6] + 1)), f.nxs[6] + 1)]]
\* factor of the last edge below e (edges and e in the same unit): the cross section is this over e
RECURSIVE FactorAt(_, _, _)
FactorAt(el, e, i) == IF i = 0 THEN 0 ELSE IF el.x[i] < e THEN el.y[i] ELSE FactorAt(el, e, i - 1)

\* what scatters: of hydrogen and iron the isotopes given, otherwise the element and all its natural isotopes
RECURSIVE Add(_, _)
Add(s, new) == IF new = <<>> THEN s ELSE Add(IF \E i \in DOMAIN s : s[i] = new[1] THEN s ELSE Append(s, new[1]), Tail(new))
Sym == 1 :> "H" @@ 4 :> "Be" @@ 6 :> "C" @@ 7 :> "N" @@ 8 :> "O" @@ 12 :> "Mg" @@ 13 :> "Al" @@ 14 :> "Si" @@ 26 :> "Fe" @@ 39 :> "Y" @@ 40 :> "Zr" @@ 92 :> "U"
Natural(z) == CASE z = 4 -> <<"Be9">> [] z = 6 -> <<"C12", "C13">> [] z = 7 -> <<"N14", "N15">> [] z = 8 -> <<"O16", "O17", "O18">>
                [] z = 12 -> <<"Mg24", "Mg25", "Mg26">> [] z = 13 -> <<"Al27">> [] z = 14 -> <<"Si28", "Si29", "Si30">> [] z = 39 -> <<"Y89">>
                [] z = 40 -> <<"Zr90", "Zr91", "Zr92", "Zr94", "Zr96">> [] OTHER -> <<"U234", "U235", "U238">>
RECURSIVE Nuclides(_, _)
Nuclides(pairs, acc) ==
    IF pairs = <<>> THEN acc
    ELSE LET z == pairs[1] \div 1000 IN
         Nuclides(Tail(pairs), IF pairs[1] = 0 THEN acc
                               ELSE IF z \in {1, 26} THEN Append(acc, Sym[z] \o ToString(pairs[1] % 1000))
                               ELSE Add(Add(acc, <<Sym[z] \o "0">>), Natural(z)))

\* names of ACE tables and what they stand for
Known == [c_H_in_H2O |-> {"lwtr", "hh2o", "h-h2o", "lw"}, c_D_in_D2O |-> {"hwtr", "dd2o", "d-d2o", "hw"}, c_Graphite |-> {"grph", "graph", "gr"},
          c_H_in_CH2 |-> {"poly", "hch2", "h-poly", "pol"}, c_H_in_ZrH |-> {"h/zr", "h-zr", "hzrh", "hzr", "h-zrh"}, c_Zr_in_ZrH |-> {"zr/h", "zr-h", "zrzrh", "zr-zrh"},
          c_Be |-> {"be", "be-met", "be-metal"}, c_BeO |-> {"beo"}, c_Be_in_BeO |-> {"be-o", "be/o", "bebeo", "be-beo"}, c_O_in_BeO |-> {"o-be", "o/be", "obeo", "o-beo"},
          c_U_in_UO2 |-> {"u/o2", "u-o2", "uuo2", "u-uo2"}, c_O_in_UO2 |-> {"o2/u", "o2-u", "ouo2", "o-uo2"}, c_C6H6 |-> {"benz", "c6h6"},
          c_H_in_CH4_liquid |-> {"lmeth", "lch4"}, c_H_in_CH4_solid |-> {"smeth", "sch4"}, c_para_H |-> {"hpara", "parah"}, c_ortho_H |-> {"hortho", "orthoh"},
          c_para_D |-> {"dpara", "parad"}, c_ortho_D |-> {"dortho", "orthod"}, c_Fe56 |-> {"fe", "fe56", "fe-56"}, c_Al27 |-> {"al", "al27", "al-27"},
          c_SiO2_alpha |-> {"sio2", "sio2a"}, c_SiO2_beta |-> {"sio2b"}, c_Si_in_SiC |-> {"si-sic", "sisic"}, c_C_in_SiC |-> {"c-sic", "csic"},
          c_H_in_H2O_solid |-> {"hice", "h-ice"}, c_O_in_H2O_ice |-> {"oice", "o-ice"}, c_H_in_YH2 |-> {"hyh2", "h-yh2"}, c_Y_in_YH2 |-> {"yyh2", "y-yh2"},
          c_N_in_UN |-> {"n-un"}, c_U_in_UN |-> {"u-un"}, c_Graphite_10p |-> {"grph10"}, c_Graphite_30p |-> {"grph30"}, c_O_in_D2O |-> {"od2o", "o-d2o"},
          c_Mg24 |-> {"mg", "mg24"}, c_H_in_C5O2H8 |-> {"lucite", "c5o2h8", "h-luci"}, c_H_in_CaH2 |-> {"hcah2"}, c_Ca_in_CaH2 |-> {"cah"}]
NameOf(low) == IF \E n \in DOMAIN Known : low \in Known[n] THEN CHOOSE n \in DOMAIN Known : low \in Known[n] ELSE ""

Temp(f) == ToString((f.tmk + 500) \div 1000) \o "K"
At(f) == [xs |-> Inelastic(f), eout |-> IF Mode(f) = "continuous" THEN <<>> ELSE EOut(f), mu |-> IF Mode(f) = "continuous" THEN <<>> ELSE MuOut(f),
          dist |-> IF Mode(f) = "continuous" THEN Dist(f) ELSE <<>>, el |-> Elastic(f)]

(***************************************************************************)
(* A material's data: the table at each temperature (by number), nothing   *)
(* is mixed, and a refused table leaves everything as it was.              *)
(***************************************************************************)
Nothing == [name |-> "", temps |-> <<>>]
Put(T, k) == [x \in {T} |-> k]
LoadOf(tabs, k) == [name |-> tabs[k].name, temps |-> Put(Temp(tabs[k]), k)]
Outcome(mem, t) == IF Temp(t) \in DOMAIN mem.temps THEN "kept" ELSE IF t.name # mem.name THEN "refused" ELSE "added"
AddOf(mem, tabs, k) == IF Outcome(mem, tabs[k]) = "added" THEN [mem EXCEPT !.temps = @ @@ Put(Temp(tabs[k]), k)] ELSE mem
================================================================================

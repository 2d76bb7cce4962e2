--------------------------------- MODULE Decay ---------------------------------
(* Radioactive decay data (8/457) and fission product yields (8/454, 8/459).   *)
(* A section is a sequence of records [c, n, r, v]; reals are in thousandths.  *)
EXTENDS Nuclides

Pair(v, i) == <<v[i], v[i + 1]>>

(***************************************************************************)
(* What happens, one thing after another: the digits of a number           *)
(***************************************************************************)
ModeName(k) == CASE k = 0 -> "gamma" [] k = 1 -> "beta-" [] k = 2 -> "ec/beta+" [] k = 3 -> "IT" [] k = 4 -> "alpha" [] k = 5 -> "n" [] k = 6 -> "sf" [] k = 7 -> "p" [] k = 8 -> "e-" [] k = 9 -> "xray" [] OTHER -> "unknown"
RECURSIVE Digits(_, _)
Digits(x, unit) == IF x = 0 \/ unit = 0 THEN <<>> ELSE <<x \div unit>> \o Digits(x % unit, unit \div 10)
Codes(x) == IF x = 10000 THEN <<10>> ELSE Digits(x, 1000)
Modes(x) == LET d == Codes(x) IN [i \in DOMAIN d |-> ModeName(d[i])]
\* charge and mass that stay behind
DZ(k) == CASE k = 1 -> 1 [] k = 2 -> -1 [] k = 4 -> -2 [] k = 7 -> -1 [] OTHER -> 0
DA(k) == CASE k = 4 -> -4 [] k \in {5, 7} -> -1 [] OTHER -> 0
SumOf(s, F(_)) == LET RECURSIVE G(_)
                      G(t) == IF t = <<>> THEN 0 ELSE F(t[1]) + G(Tail(t)) IN G(s)
Daughter(z, a, codes, state) == Name(z + SumOf(codes, DZ), a + SumOf(codes, DA), state)
\* nothing is said of what fission or an unknown mode leaves
Known(codes) == \A i \in DOMAIN codes : codes[i] \notin {6, 10}

(***************************************************************************)
(* Decay data, record by record                                            *)
(***************************************************************************)
Energies == <<"light", "electromagnetic", "heavy", "beta-", "beta+", "auger", "conversion", "gamma", "xray", "Bremsstrahlung", "annihilation", "alpha", "recoil", "SF", "neutron", "proton", "neutrino">>
Radiation(s) == CASE s = 10 -> "anti-neutrino" [] s = 11 -> "neutrino" [] OTHER -> ModeName(s)
Shape(t) == CASE t = 0 -> "" [] t = 1 -> "allowed" [] t = 2 -> "first-forbidden" [] t = 3 -> "second-forbidden" [] t = 4 -> "third-forbidden" [] t = 5 -> "fourth-forbidden" [] OTHER -> "fifth-forbidden"
Flag(n) == CASE n = 0 -> "discrete" [] n = 1 -> "continuous" [] OTHER -> "both"
Hdr(recs) == [z |-> recs[1].c[1] \div 1000000, a |-> (recs[1].c[1] \div 1000) % 1000, awr |-> recs[1].c[2], state |-> recs[1].n[1],
               iso |-> recs[1].n[2], stable |-> recs[1].n[3] = 1, nsp |-> recs[1].n[4]]
Unknown == -77777
Line(r, styp) == [e |-> <<r.c[1], r.c[2]>>, from |-> Modes(r.v[1]), t |-> Shape(r.v[2] \div 1000), i |-> Pair(r.v, 3),
    pos |-> IF styp = 2 THEN Pair(r.v, 5) ELSE <<>>, pair |-> IF styp = 0 THEN Pair(r.v, 5) ELSE <<>>,
    icc |-> IF styp = 0 /\ Len(r.v) >= 8 THEN Pair(r.v, 7) ELSE <<>>,
    k |-> IF styp = 0 /\ Len(r.v) = 12 THEN Pair(r.v, 9) ELSE <<>>, l |-> IF styp = 0 /\ Len(r.v) = 12 THEN Pair(r.v, 11) ELSE <<>>]
\* the spectrum whose list is record i
NLines(recs, i) == IF recs[i].n[1] = 1 THEN 0 ELSE recs[i].n[4]
Tab(r) == [r |-> r.r, x |-> [j \in 1..(Len(r.v) \div 2) |-> r.v[2 * j - 1]], y |-> [j \in 1..(Len(r.v) \div 2) |-> r.v[2 * j]]]
Spectrum(recs, i) ==
    LET r == recs[i]
        s == r.c[2] \div 1000
        t == i + NLines(recs, i) + 1 IN
    [type |-> Radiation(s), flag |-> Flag(r.n[1]), fd |-> Pair(r.v, 1), av |-> Pair(r.v, 3), fc |-> Pair(r.v, 5),
     lines |-> [j \in 1..NLines(recs, i) |-> Line(recs[i + j], s)],
     cont |-> IF r.n[1] = 0 THEN <<>> ELSE
        <<[from |-> Modes(recs[t].c[1]), tab |-> Tab(recs[t]),
           lb |-> IF recs[t].n[2] = 0 THEN 0 ELSE recs[t + 1].n[2],
           cov |-> IF recs[t].n[2] = 0 THEN <<>> ELSE [j \in 1..(Len(recs[t + 1].v) \div 2) |-> Pair(recs[t + 1].v, 2 * j - 1)]]>>]
SpectrumLen(recs, i) == 1 + NLines(recs, i) + (IF recs[i].n[1] = 0 THEN 0 ELSE 1 + (IF recs[i + NLines(recs, i) + 1].n[2] = 0 THEN 0 ELSE 1))

ReadStart(recs) == [i |-> 4, left |-> IF Hdr(recs).stable THEN 0 ELSE Hdr(recs).nsp, out |-> <<>>]
ReadDone(s) == s.left = 0
ReadStep(recs, s) == [i |-> s.i + SpectrumLen(recs, s.i), left |-> s.left - 1, out |-> Append(s.out, Spectrum(recs, s.i))]
RECURSIVE ReadAll(_, _)
ReadAll(recs, s) == IF ReadDone(s) THEN s.out ELSE ReadAll(recs, ReadStep(recs, s))
Average(recs) == LET v == recs[2].v IN IF Hdr(recs).stable THEN <<>> ELSE
    [j \in 1..(IF Len(v) = 34 THEN 17 ELSE 3) |-> <<Energies[j], v[2 * j - 1], v[2 * j]>>]
DecayModes(recs) == LET h == Hdr(recs) IN IF h.stable THEN <<>> ELSE
    [j \in 1..recs[3].n[4] |-> LET v == SubSeq(recs[3].v, 6 * j - 5, 6 * j) IN
        [modes |-> Modes(v[1]), q |-> Pair(v, 3), br |-> Pair(v, 5), parent |-> Name(h.z, h.a, h.iso), known |-> Known(Codes(v[1])),
         to |-> IF Known(Codes(v[1])) THEN Daughter(h.z, h.a, Codes(v[1]), v[2] \div 1000) ELSE ""]]
Data(recs) ==
    LET h == Hdr(recs) IN
    [name |-> Name(h.z, h.a, h.iso), z |-> h.z, a |-> h.a, iso |-> h.iso, state |-> h.state, awr |-> h.awr, stable |-> h.stable,
     half |-> IF h.stable THEN <<>> ELSE <<recs[2].c[1], recs[2].c[2]>>,
     spin |-> recs[3].c[1], parity |-> recs[3].c[2],
     energies |-> Average(recs), modes |-> DecayModes(recs), spectra |-> ReadAll(recs, ReadStart(recs))]

(***************************************************************************)
(* Yields: at each energy, each product                                    *)
(***************************************************************************)
Yields(recs) == [e |-> [i \in 1..recs[1].n[1] |-> recs[i + 1].c[1]],
    y |-> [i \in 1..recs[1].n[1] |-> LET v == recs[i + 1].v IN
        {LET w == SubSeq(v, 4 * j - 3, 4 * j) IN <<Name(w[1] \div 1000000, (w[1] \div 1000) % 1000, w[2] \div 1000), w[3], w[4]>> : j \in 1..recs[i + 1].n[4]}]]
================================================================================

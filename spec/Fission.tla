-------------------------------- MODULE Fission --------------------------------
(* Edits of the prompt fission spectrum and of nubar.  A spectrum has one table  *)
(* per incident energy; a table is [P, C, D]: density P[k]/D and distribution     *)
(* C[k]/D at outgoing energy k, with steps dE (dE[1] = 0).                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RECURSIVE Cum(_, _, _, _)
\* C[k] plus the accumulated density changes, over denominator D
Cum(t, new, dE, k) ==
    IF k = 0 THEN 0 ELSE Cum(t, new, dE, k - 1) + (new[k] * t.D - t.P[k]) * dE[k]
NewC(t, new, dE) == [k \in 1..Len(new) |-> t.C[k] + Cum(t, new, dE, k)]
Norm(t, new, dE) == NewC(t, new, dE)[Len(new)]
Edited(t, new, dE) == [P |-> [k \in 1..Len(new) |-> new[k] * t.D], C |-> NewC(t, new, dE), D |-> Norm(t, new, dE)]

Fits(tabs, new) == Len(new) = Len(tabs) /\ \A i \in DOMAIN new : Len(new[i]) = Len(tabs[i].P)

CONSTANTS Spectra,      \* starting tables
          Steps,        \* their dE
          Densities,    \* integer densities a caller gives
          Nus, MaxOps
VARIABLES tabs, dE, nu, orig, ops
fvars == <<tabs, dE, nu, orig, ops>>

FInit == /\ tabs \in Spectra /\ dE \in Steps /\ nu = 0
         /\ orig = [tabs |-> tabs, nu |-> 0] /\ ops = <<>>
Log(o, k) == Len(ops) < MaxOps /\ ops' = Append(ops, [op |-> o, k |-> k])
SetChi(d) == /\ Log("chi", d[1]) /\ UNCHANGED <<dE, nu, orig>>
             /\ \A i \in DOMAIN tabs : Norm(tabs[i], d, dE) > 0
             /\ tabs' = [i \in DOMAIN tabs |-> Edited(tabs[i], d, dE)]
BadChi(k) == Log("badchi", k) /\ UNCHANGED <<tabs, dE, nu, orig>>
SetNu(v) == Log("nu", v) /\ nu' = v /\ UNCHANGED <<tabs, dE, orig>>
BadNu == Log("badnu", 0) /\ UNCHANGED <<tabs, dE, nu, orig>>
Sigma == Log("sigma", 0) /\ UNCHANGED <<tabs, dE, nu, orig>>      \* an edit of the cross section
FNext == (\E d \in Densities : SetChi(d)) \/ (\E k \in 0..1 : BadChi(k)) \/ (\E v \in Nus : SetNu(v)) \/ BadNu \/ Sigma
FSpec == FInit /\ [][FNext]_fvars

\* ---- design properties -----------------------------------------------------
EditedOnce == \E i \in DOMAIN ops : ops[i].op = "chi"
EndsAtOne == EditedOnce => \A i \in DOMAIN tabs : tabs[i].C[Len(tabs[i].C)] = tabs[i].D
StartKept == \A i \in DOMAIN tabs : orig.tabs[i].C[1] = 0 => tabs[i].C[1] = 0
\* a distribution that accumulates its density keeps doing so ...
Accum(t) == \A k \in DOMAIN t.P : t.C[k] = FoldLeft(+, 0, [j \in 1..k |-> t.P[j] * dE[j]])
ConsistentStays == \A i \in DOMAIN tabs : Accum(orig.tabs[i]) => Accum(tabs[i])
\* ... and then only the last density matters
LastChi == CHOOSE i \in DOMAIN ops : ops[i].op = "chi" /\ \A j \in DOMAIN ops : j > i => ops[j].op # "chi"
SameRatio(a, b) == \A k \in DOMAIN a.P : a.P[k] * b.D = b.P[k] * a.D /\ a.C[k] * b.D = b.C[k] * a.D
LastDensityDecides == EditedOnce =>
    \A i \in DOMAIN tabs : Accum(orig.tabs[i]) =>
        LET d == CHOOSE x \in Densities : x[1] = ops[LastChi].k
        IN SameRatio(tabs[i], Edited(orig.tabs[i], d, dE))
===============================================================================

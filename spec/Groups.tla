-------------------------------- MODULE Groups --------------------------------
(* Group structures and the mapping of group values onto pointwise energies.  *)
(* Energies are abstract ordered ticks (the drivers rank-compress the real    *)
(* energies, so order and equality are exactly those of the floats).          *)
(* Groups are numbered as in ENDF/ASAPy: 1 is the highest in energy;          *)
(* high[g] is the upper bound of group g, decreasing in g.                    *)
EXTENDS Integers, Sequences, FiniteSets

\* what may be asked for: a lower limit below the lowest upper bound,
\* an upper limit not below the top bound
Acceptable(high, lo, hi) == lo # high[Len(high)] /\ hi >= high[1]
WellFormed(high, lo, hi) == lo < high[Len(high)] /\ hi >= high[1]

Upper(high, hi, g) == IF g = 1 THEN hi ELSE high[g]
Lower(high, lo, g) == IF g = Len(high) THEN lo ELSE high[g + 1]

Inside(high, lo, hi, g, e) ==
    \/ Lower(high, lo, g) < e /\ e <= Upper(high, hi, g)
    \/ g = Len(high) /\ e = lo

InRange(lo, hi, e) == lo <= e /\ e <= hi

GroupOf(high, lo, hi, e) == CHOOSE g \in 1..Len(high) : Inside(high, lo, hi, g, e)

MapValue(high, lo, hi, vals, fill, e) ==
    IF InRange(lo, hi, e) THEN vals[GroupOf(high, lo, hi, e)] ELSE fill

MapAll(high, lo, hi, vals, fill, es) ==
    [i \in 1..Len(es) |-> MapValue(high, lo, hi, vals, fill, es[i])]

(***************************************************************************)
(* The mapping as a process: energies are consumed one by one.             *)
(***************************************************************************)
CONSTANTS Ticks, MaxGroups, MaxEnergies
VARIABLES high, lo, hi, es, out
gvars == <<high, lo, hi, es, out>>

Decreasing(s) == \A i, j \in 1..Len(s) : i < j => s[i] > s[j]
Structures == {s \in UNION {[1..n -> Ticks] : n \in 1..MaxGroups} : Decreasing(s)}

GInit == /\ high \in Structures
         /\ lo \in Ticks /\ hi \in Ticks
         /\ WellFormed(high, lo, hi)
         /\ es = <<>> /\ out = <<>>

Consume(e) == /\ Len(es) < MaxEnergies
              /\ es' = Append(es, e)
              \* group numbers stand for the values, 0 for the fill value
              /\ out' = Append(out, MapValue(high, lo, hi, [g \in 1..Len(high) |-> g], 0, e))
              /\ UNCHANGED <<high, lo, hi>>
GNext == \E e \in Ticks : Consume(e)
GSpec == GInit /\ [][GNext]_gvars

\* design properties
ExactlyOneGroup == \A e \in Ticks : InRange(lo, hi, e) =>
    Cardinality({g \in 1..Len(high) : Inside(high, lo, hi, g, e)}) = 1
NoGroupOutside == \A e \in Ticks : ~InRange(lo, hi, e) =>
    \A g \in 1..Len(high) : ~Inside(high, lo, hi, g, e)
EveryGroupReached == \A g \in 1..Len(high) : Inside(high, lo, hi, g, Upper(high, hi, g))
Parallel == Len(out) = Len(es) /\ \A i \in 1..Len(es) :
    out[i] = IF InRange(lo, hi, es[i]) THEN GroupOf(high, lo, hi, es[i]) ELSE 0
OrderFree == \A i, j \in 1..Len(es) : es[i] = es[j] => out[i] = out[j]
Monotone == \A i, j \in 1..Len(es) :
    es[i] < es[j] /\ out[i] # 0 /\ out[j] # 0 => out[i] >= out[j]
===============================================================================

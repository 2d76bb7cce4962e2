------------------------------- MODULE Sampling -------------------------------
(* Latin hypercube sampling with imposed ranks.  A value is represented by    *)
(* its stratum: which of the n equiprobable intervals of its distribution it  *)
(* lies in (0 .. n-1, in increasing order of the value).                      *)
EXTENDS Integers, Sequences, FiniteSets

\* a variable as the sampler is given it: zero mean? no deviation? no correlation data?
Kinds == [mean0 : BOOLEAN, sd0 : BOOLEAN, diag0 : BOOLEAN]
IsFixed(distro, v) == v.sd0 \/ v.diag0 \/ (distro = "lognormal" /\ v.mean0)

IsPerm(s, n) == Len(s) = n /\ {s[i] : i \in 1..Len(s)} = 0..(n - 1)

\* ranks of a column are a permutation ordered like the scores
RanksOf(r, s) == IsPerm(r, Len(s)) /\ \A i, j \in 1..Len(s) : s[i] < s[j] => r[i] < r[j]
CountOf(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Below(s, x) == Cardinality({i \in 1..Len(s) : s[i] < x})
\* the element of s that has k smaller-or-earlier ones: k-th of the sorted column
Sorted(s, k) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : Below(s, x) <= k /\ k < Below(s, x) + CountOf(s, x)
Ordered(r, s) == [i \in 1..Len(s) |-> Sorted(s, r[i])]

\* bounds on the number of samples left after dropping those with a negative value:
\* neg[v] of the strata of variable v are negative
SumOver(f, S) == LET RECURSIVE Go(_)
                     Go(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f[x] + Go(T \ {x})
                 IN Go(S)
MaxOver(f, S) == IF S = {} THEN 0 ELSE CHOOSE m \in {f[x] : x \in S} : \A x \in S : f[x] <= m
LeastKept(n, neg, S) == LET k == n - SumOver(neg, S) IN IF k < 0 THEN 0 ELSE k
MostKept(n, neg, S) == n - MaxOver(neg, S)

\* Zerovnik's transformation for relative deviations with 1 + r^2 = 2^k and a
\* correlation c4/4: (2^(k c) - 1) / (2^k - 1), here in 1/10000
Pow2(n) == 2 ^ n
LogCorr(k, c4) ==
    LET x == (k * c4) \div 4 IN
    IF x >= 0 THEN (10000 * (Pow2(x) - 1)) \div (Pow2(k) - 1)
    ELSE -((10000 * (Pow2(-x) - 1)) \div (Pow2(-x) * (Pow2(k) - 1)))

(***************************************************************************)
(* The procedure: choose variables, draw strata, score ranks, order, drop. *)
(***************************************************************************)
CONSTANTS N, K, Distros, MaxNeg
VARIABLES distro, vars, strata, ranks, out, neg, kept, stage
svars == <<distro, vars, strata, ranks, out, neg, kept, stage>>

V == 1..K
Perms == {f \in [1..N -> 0..(N - 1)] : IsPerm(f, N)}
Free == {v \in V : ~IsFixed(distro, vars[v])}

SInit == /\ distro \in Distros /\ vars \in [V -> Kinds]
         /\ strata = <<>> /\ ranks = <<>> /\ out = <<>> /\ neg = <<>> /\ kept = {} /\ stage = "given"
Draw == /\ stage = "given" /\ stage' = "drawn"
        /\ strata' \in [Free -> Perms]
        /\ UNCHANGED <<distro, vars, ranks, out, neg, kept>>
Score == /\ stage = "drawn" /\ stage' = "scored"
         /\ ranks' \in [Free -> Perms]
         /\ UNCHANGED <<distro, vars, strata, out, neg, kept>>
\* a fixed variable holds its mean: stratum -1 in every sample
Order == /\ stage = "scored" /\ stage' = "ordered"
         /\ out' = [v \in V |-> IF v \in Free THEN Ordered(ranks[v], strata[v]) ELSE [i \in 1..N |-> -1]]
         /\ UNCHANGED <<distro, vars, strata, ranks, neg, kept>>
Drop == /\ stage = "ordered" /\ stage' = "dropped"
        /\ neg' \in [Free -> 0..MaxNeg]
        /\ kept' = {i \in 1..N : \A v \in Free : out[v][i] >= neg'[v]}
        /\ UNCHANGED <<distro, vars, strata, ranks, out>>
SNext == Draw \/ Score \/ Order \/ Drop
SSpec == SInit /\ [][SNext]_svars

Have == stage \in {"ordered", "dropped"}
Stratified == Have => \A v \in Free : IsPerm(out[v], N)
InRankOrder == Have => \A v \in Free : \A i, j \in 1..N : ranks[v][i] < ranks[v][j] => out[v][i] < out[v][j]
FixedHold == Have => \A v \in V \ Free : \A i \in 1..N : out[v][i] = -1
Complete == Have => DOMAIN out = V
KeptBounds == stage = "dropped" =>
    LeastKept(N, neg, Free) <= Cardinality(kept) /\ Cardinality(kept) <= MostKept(N, neg, Free)
OneVariable == stage = "dropped" /\ Cardinality(Free) = 1 => \A v \in Free : Cardinality(kept) = N - neg[v]
OnlyNegativeDropped == stage = "dropped" => \A i \in (1..N) \ kept : \E v \in Free : out[v][i] < neg[v]
===============================================================================

------------------------------- MODULE CovStore -------------------------------
(* The covariance store: for each pair of reactions a table of group data      *)
(* ("std") and a correlation matrix ("corr").  The store maps [key, kind] to    *)
(* the frame last accepted; frames are refused unless they are well formed.    *)
(* Group 1 is the highest in energy.                                           *)
EXTENDS Integers, Sequences, FiniteSets

\* ---- well-formed frames -------------------------------------------------
CorrOk(f) == Len(f.rows) = Len(f.cols) /\ f.rows = f.cols
Falls(s) == \A i \in 1..(Len(s) - 1) : s[i] > s[i + 1]
StdOk(f) == Falls(f.low) /\ Falls(f.high)
Ok(kind, f) == IF kind = "corr" THEN CorrOk(f) ELSE StdOk(f)

\* ---- the store as an abstract data type --------------------------------------
Put(s, k, f) == [x \in DOMAIN s \cup {k} |-> IF x = k THEN f ELSE s[x]]

\* ---- what processing a matrix file stores ----------------------------------------
\* bounds (n+1), x (n), rel (n), cov (n x n): integers, high to low energy.
\* x is in 1/1000 b, rel in 1/10000, deviations and rel in the store in 1e-7
ISqrt(v) == CHOOSE r \in 0..60 : r * r = v
AbsV(v) == IF v < 0 THEN -v ELSE v
Dev(cov, i) == ISqrt(AbsV(cov[i][i]))
Million == 1000000
\* the correlation in millionths is between the two (rounding of the projection)
CorrelationIs(cov, i, j, r) ==
    LET si == Dev(cov, i)
        sj == Dev(cov, j)
        \* the upper triangle counts
        c == IF i < j THEN cov[i][j] ELSE cov[j][i]
        p == si * sj IN
    IF i = j THEN r = Million
    ELSE IF p = 0 THEN r = (IF c = 0 THEN 0 ELSE IF c > 0 THEN Million ELSE -Million)
    ELSE IF AbsV(c) >= p THEN r = (IF c > 0 THEN Million ELSE -Million)
    \* |r * p - c * 10^6| <= p, without leaving 32 bits
    ELSE LET whole == (AbsV(c) * 1000) \div p
             rest == (AbsV(c) * 1000) % p
             exp == whole * 1000 + (rest * 1000) \div p IN
         AbsV(r - (IF c < 0 THEN -exp ELSE exp)) <= 2

GroupRow(m, g) ==
    IF m.x[g] = 0
    THEN [high |-> m.bounds[g], low |-> m.bounds[g + 1], x |-> 0, rel |-> 1, sd |-> 1]
    ELSE [high |-> m.bounds[g], low |-> m.bounds[g + 1], x |-> m.x[g], rel |-> m.rel[g] * 1000, sd |-> m.x[g] * m.rel[g]]

\* a store's correlation matrix is fit for sampling
FitForSampling(c) == \A i \in DOMAIN c : c[i][i] = Million /\ \A j \in DOMAIN c : c[i][j] = c[j][i] /\ AbsV(c[i][j]) <= Million

\* ---- loading: unit diagonal, limits the right way round ----------------------------
Turned(f) == f.low[1] > f.high[1]
LoadHigh(f) == IF Turned(f) THEN f.low ELSE f.high
LoadLow(f) == IF Turned(f) THEN f.high ELSE f.low
MaxDiag(c) == LET D == {c[i][i] : i \in DOMAIN c} IN CHOOSE d \in D : \A e \in D : e <= d

(***************************************************************************)
(* Histories: additions, refusals, closing and opening.                    *)
(***************************************************************************)
CONSTANTS Keys, Good, Bad, MaxOps
VARIABLES disk, mem, open, accepted, ops
svars == <<disk, mem, open, accepted, ops>>
Slots == Keys \X {"corr", "std"}
Empty == [x \in {} |-> 0]
SInit == disk = Empty /\ mem = Empty /\ open = TRUE /\ accepted = <<>> /\ ops = <<>>
More == Len(ops) < MaxOps
Add(k, kind, f) ==
    /\ open /\ More
    /\ mem' = IF f \in Good THEN Put(mem, <<k, kind>>, f) ELSE mem
    /\ accepted' = IF f \in Good THEN Append(accepted, <<<<k, kind>>, f>>) ELSE accepted
    /\ ops' = Append(ops, [op |-> "add", key |-> k, kind |-> kind, f |-> f])
    /\ UNCHANGED <<disk, open>>
Close == open /\ More /\ open' = FALSE /\ disk' = mem /\ ops' = Append(ops, [op |-> "close", key |-> "", kind |-> "", f |-> 0]) /\ UNCHANGED <<mem, accepted>>
Open == ~open /\ More /\ open' = TRUE /\ mem' = disk /\ ops' = Append(ops, [op |-> "open", key |-> "", kind |-> "", f |-> 0]) /\ UNCHANGED <<disk, accepted>>
SNext == Close \/ Open \/ \E k \in Keys : \E kind \in {"corr", "std"} : \E f \in Good \cup Bad : Add(k, kind, f)
SSpec == SInit /\ [][SNext]_svars

Current == IF open THEN mem ELSE disk
LastFor(k) == LET ix == {i \in DOMAIN accepted : accepted[i][1] = k} IN
    accepted[CHOOSE i \in ix : \A j \in ix : j <= i][2]
ExactlyTheLastAccepted ==
    /\ DOMAIN Current = {accepted[i][1] : i \in DOMAIN accepted}
    /\ \A k \in DOMAIN Current : Current[k] = LastFor(k)
OnlyGood == \A k \in DOMAIN Current : Current[k] \in Good
RefusedChangesNothing == [][ops' # ops /\ ops'[Len(ops')].f \in Bad => Current' = Current]_svars
OneSlotAtATime == [][Cardinality({k \in DOMAIN Current' : k \notin DOMAIN Current \/ Current[k] # Current'[k]}) <= 1]_svars
Survives == [][open # open' => Current' = Current]_svars
===============================================================================

---------------------------- MODULE Trace_Sampling ----------------------------
(* Judges recorded samples (C10), ranks and correlations (C11), and the       *)
(* sample tables drawn from covariance stores (C12).                          *)
EXTENDS Verdict
VARIABLES l
S == INSTANCE Sampling WITH N <- 1, K <- 1, Distros <- {}, MaxNeg <- 0, distro <- "", vars <- <<>>,
        strata <- <<>>, ranks <- <<>>, out <- <<>>, neg <- <<>>, kept <- {}, stage <- ""

\* ev = sample: distro, n, vars, shape, cols = [hold, strata, positive]
JudgeSample(e) ==
    IF e.exc # "" THEN {"a valid request to sample was refused"} ELSE
    IF e.shape # <<e.n, Len(e.vars)>> THEN {"not one row per sample and one column per variable"} ELSE UNION {
    Must("a variable that cannot be sampled does not hold its mean",
         \A v \in DOMAIN e.vars : S!IsFixed(e.distro, e.vars[v]) => e.cols[v].hold),
    Must("a variable does not have exactly one value in each equiprobable interval",
         \A v \in DOMAIN e.vars : ~S!IsFixed(e.distro, e.vars[v]) => S!IsPerm(e.cols[v].strata, e.n)),
    Must("a lognormal sample is not positive",
         e.distro # "lognormal" \/ \A v \in DOMAIN e.vars : e.vars[v].mean0 \/ e.cols[v].positive),
    Must("the caller's arrays were changed", ~e.mutated)}
\* ev = unit: num_vars, n, shape, strata (one sequence per variable)
JudgeUnit(e) ==
    IF e.exc # "" THEN {"a valid request to sample was refused"} ELSE UNION {
    Must("not one row per sample and one column per variable", e.shape = <<e.n, e.k>>),
    Must("a variable does not have exactly one value in each equiprobable interval",
         \A v \in DOMAIN e.strata : S!IsPerm(e.strata[v], e.n))}

Col(m, j) == [i \in DOMAIN m |-> m[i][j]]
JudgeRank(e) ==
    IF e.exc # "" \/ Len(e.r) # Len(e.s) THEN {"ranking failed"} ELSE
    Must("ranks are not a permutation ordered like the scores",
         \A j \in 1..e.k : S!RanksOf(Col(e.r, j), Col(e.s, j)))
JudgeOrder(e) ==
    IF e.exc # "" \/ Len(e.out) # Len(e.s) THEN {"ordering failed"} ELSE
    Must("a column is not its own values in the order of the ranks",
         \A j \in 1..e.k : Col(e.out, j) = S!Ordered(Col(e.r, j), Col(e.s, j)))
\* ev = scores: every column holds the same values (as ids), mean 0 and deviation 1 (1e-6)
JudgeScores(e) == UNION {
    Must("score columns are not rearrangements of the same scores",
         e.exc = "" /\ Len(e.cols) = e.k /\ \A j \in DOMAIN e.cols : S!IsPerm(e.cols[j], e.n)),
    Must("scores are not standard", e.exc # "" \/ \A j \in DOMAIN e.cols : Abs(e.mean[j]) <= 5 /\ Abs(e.sd[j] - 1000000) <= 5),
    Must("score columns are not independent", e.exc # "" \/ e.n < 1000 \/ Abs(e.maxc) <= 2000)}

\* ev = corr: c4 = requested correlation in quarters, k = 0 or the lognormal exponent,
\* fixed = variables that are not sampled, got = sample correlation (1e-4), tol
Want(e, i, j) == IF e.k = 0 THEN 2500 * e.c4[i][j] ELSE S!LogCorr(e.k, e.c4[i][j])
JudgeCorr(e) ==
    IF e.exc # "" THEN {"a valid request to sample was refused"} ELSE
    LET free == {i \in DOMAIN e.c4 : ~e.fixed[i]} IN UNION {
    Must("variables move together that should move oppositely, or the other way round",
         \A i, j \in free : Abs(Want(e, i, j)) <= e.tol \/ (e.got[i][j] > 0) = (Want(e, i, j) > 0)),
    Must("samples do not carry the requested correlation",
         \A i, j \in free : Near(e.got[i][j], Want(e, i, j), e.tol))}

\* ev = table: sampling from a store
JudgeTable(e) ==
    IF e.exc # "" THEN {"a valid request to sample was refused"} ELSE
    LET G == Len(e.groups)
        m == Len(e.cols)
        free == {g \in 1..G : ~S!IsFixed(e.distro, e.groups[g])}
        lo == [g \in free |-> e.groups[g].neg[1]]
        hi == [g \in free |-> e.groups[g].neg[2]] IN UNION {
    Must("the rows are not the groups", e.rows = [g \in 1..G |-> g] /\ e.rrows = e.rows),
    Must("the samples are not numbered without gaps", e.cols = [i \in 1..m |-> i - 1] /\ e.rcols = e.cols),
    Must("a sample is not finite", e.finite /\ e.rfinite),
    Must("relative and full samples disagree", e.relerr <= 1000 /\ e.zeroerr = 0),
    Must("a negative value was left", ~e.remove \/ e.negatives = 0),
    Must("samples are missing", e.remove \/ m = e.n),
    Must("samples without a negative value were dropped", m >= S!LeastKept(e.n, hi, free)),
    Must("more samples than can be without a negative value", ~e.remove \/ m <= S!MostKept(e.n, lo, free)),
    Must("a group that cannot be sampled does not hold its mean", \A g \in 1..G \ free : e.groups[g].hold),
    Must("a group is not sampled from its stored mean and deviation",
         \A g \in free : IF m = e.n THEN S!IsPerm(e.groups[g].strata, e.n)
                         ELSE /\ Len(e.groups[g].strata) = m
                              /\ \A i, j \in 1..m : i # j => e.groups[g].strata[i] # e.groups[g].strata[j]
                              /\ \A i \in 1..m : e.groups[g].strata[i] \in 0..(e.n - 1)),
    Must("the samples do not carry the stored correlation, or uncorrelated ones do",
         e.tol = 0 \/ m # e.n \/ \A g, h \in free : g = h \/
            Near(e.got[g][h], IF e.correlated THEN 2500 * e.c4[g][h] ELSE 0, e.tol)),
    Must("sampling changed the store", e.same)}

Judge(e) ==
    CASE e.ev = "sample" -> JudgeSample(e)
      [] e.ev = "unit" -> JudgeUnit(e)
      [] e.ev = "rank" -> JudgeRank(e)
      [] e.ev = "order" -> JudgeOrder(e)
      [] e.ev = "scores" -> JudgeScores(e)
      [] e.ev = "corr" -> JudgeCorr(e)
      [] e.ev = "table" -> JudgeTable(e)
      [] e.ev = "refused" -> UNION {Must("an unknown sampling type was accepted", e.exc # ""), Must("sampling changed the store", e.same)}
      [] OTHER -> {"unknown event"}

TraceInit == l = 0
TraceNext == l < Len(Trace) /\ l' = l + 1 /\ Report(l + 1, Judge(Trace[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
==============================================================================

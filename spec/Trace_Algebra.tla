---------------------------- MODULE Trace_Algebra ----------------------------
EXTENDS Verdict
VARIABLES l
A == INSTANCE Algebra WITH Size <- 1, Diag <- {}, Off <- {}, Std <- {}, mat <- <<>>, kind <- ""

\* ev = cov: std (integers), corr (quarters), cov = result x 4, back = correlations from it (1e-6)
JudgeCov(e) ==
    IF e.exc # "" THEN {"a conversion failed"} ELSE UNION {
    Must("a covariance is not correlation times both deviations", e.cov = A!ToCov(e.std, e.corr)),
    Must("a covariance matrix is not symmetric", A!Symmetric(e.cov)),
    Must("converting back does not recover the correlations", \A i, j \in DOMAIN e.corr : e.back[i][j] = 250000 * e.corr[i][j]),
    Must("the caller's arrays were changed", ~e.mutated)}

\* ev = gmw: m (integers), perm, low (scale f), shift (scale f^2), tri, unit, nonneg, tiny
JudgeGmw(e) ==
    IF e.exc # "" THEN {"a symmetric matrix could not be factorised"} ELSE
    IF ~(e.unit /\ Len(e.perm) = Len(e.m) /\ {e.perm[k] : k \in DOMAIN e.perm} = 1..Len(e.m)) THEN {"no permutation was returned"} ELSE UNION {
    Must("the factor is not lower triangular", \A i, j \in DOMAIN e.low : i < j => e.low[i][j] = 0 /\ e.tri),
    Must("a shift is negative", e.nonneg),
    Must("the factors do not reconstruct the matrix plus the shifts",
         \A i, j \in DOMAIN e.m : Near(A!Rebuilt(e.perm, e.low, e.shift, i, j), e.m[i][j] * e.f * e.f, e.tol) /\ e.resid <= 100),
    Must("a positive definite matrix was shifted", A!PositiveDefinite(e.m) => e.maxshift <= 100),
    Must("the caller's arrays were changed", ~e.mutated)}

\* ev = repair: m stored correlations (quarters), fixed = result (1e-6), mineig/orig/dist 1e-8 of the groups with data
JudgeRepair(e) ==
    IF e.exc # "" THEN {"a stored correlation matrix could not be loaded"} ELSE
    LET keep == A!WithData(e.m)
        sub == A!Sub(e.m, keep)
        n == Len(e.m)
        K == {keep[i] : i \in DOMAIN keep} IN UNION {
    Must("a group without data was touched", \A i, j \in 1..n : (i \in K /\ j \in K) \/ e.fixed[i][j] = 250000 * e.m[i][j]),
    Must("a matrix was repaired that needs no repair, or though it was not asked for",
         ~(A!PositiveDefinite(sub) \/ ~e.asked) \/ e.changed = 0),
    Must("the repaired matrix is not positive definite", ~e.asked \/ e.mineig > 0),
    Must("the repaired matrix is not symmetric", \A i, j \in 1..n : Near(e.fixed[i][j], e.fixed[j][i], 1)),
    \* clipping the eigenvalues moves the matrix by no more than its lowest eigenvalue
    Must("the repaired matrix is not close to the original", ~e.asked \/ e.dist <= Max2(0, -e.orig) + 10),
    Must("a covariance is not correlation times both deviations", e.coverr <= 10),
    Must("loading changed the store", e.same)}

Judge(e) ==
    CASE e.ev = "cov" -> JudgeCov(e)
      [] e.ev = "gmw" -> JudgeGmw(e)
      [] e.ev = "repair" -> JudgeRepair(e)
      [] OTHER -> {"unknown event"}

TraceInit == l = 0
TraceNext == l < Len(Trace) /\ l' = l + 1 /\ Report(l + 1, Judge(Trace[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
==============================================================================

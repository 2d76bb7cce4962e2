---------------------------- MODULE Trace_Pipeline ----------------------------
(* Judges what the sampling command left behind: which files, their tables, and *)
(* every number of every written file against Pipeline's stated outcome.        *)
(* Cross sections: base b in 1/1024 b, sampled s in 1e-5/1024 b, factors 1e-5;   *)
(* yields and spectra: factors 1e-4.                                             *)
EXTENDS Verdict
VARIABLES l
R == INSTANCE Reactions
G == INSTANCE Groups WITH Ticks <- {}, MaxGroups <- 0, MaxEnergies <- 0,
        high <- <<>>, lo <- 0, hi <- 0, es <- <<>>, out <- <<>>
P == INSTANCE Pipeline WITH Bases <- {}, Patterns <- {}, Zeros <- {}, Requests <- {},
        base <- <<>>, fac <- <<>>, zero <- {}, queue <- <<>>, done <- {}, cur <- <<>>, adj <- {}, text <- <<>>

Set(s) == {s[i] : i \in DOMAIN s}
Minimum(s) == FoldSeq(LAMBDA x, acc : IF x < acc THEN x ELSE acc, 1000000, s)

\* ---- the run ------------------------------------------------------------------
Wanted(e) == (IF e.ask = <<>> THEN Set(e.store) ELSE Set(e.ask)) \cap Set(e.have)
RunClauses(e) ==
    LET W == Wanted(e)
        k == IF W = {} THEN 0 ELSE Minimum(e.cols)
    IN UNION {
        Must("the command failed", e.exc = ""),
        Must("not one table per sampled reaction", e.exc # "" \/ Set(e.tables) = W),
        Must("sample files are not numbered 0.. without gaps",
             e.exc # "" \/ Set(e.samples) = 0..(Len(e.samples) - 1)),
        Must("not one file per sample", e.exc # "" \/ Set(e.tables) # W \/ Len(e.samples) = k),
        Must("more samples than asked for", Len(e.samples) <= e.n),
        Must("samples of a positive distribution are missing",
             e.exc # "" \/ ~e.positive \/ W = {} \/ Len(e.samples) = e.n),
        Must("unexpected files", e.extra = <<>>),
        Must("the inputs were changed", e.same)}

\* ---- a table ----------------------------------------------------------------
TableClauses(e) == UNION {
    Must("table rows are not the groups", e.idx = [i \in 1..Len(e.slow) |-> i]),
    Must("group limits in the table are not the store's", e.low = e.slow /\ e.high = e.shigh),
    Must("means in the table are not the store's", e.mean = e.smean),
    Must("deviations in the table are not the store's", e.rel = e.srel),
    Must("sample columns are not numbered 0.. without gaps", e.samples = [i \in 1..Len(e.samples) |-> i - 1]),
    Must("a factor is not finite", e.finite),
    Must("a negative factor was kept", ~e.neg)}

\* ---- a file -------------------------------------------------------------------
GroupAt(r, k) == G!GroupOf(r.high, r.lo, r.hi, r.es[k])
In(r, k) == G!InRange(r.lo, r.hi, r.es[k])
Factor(r, k, one) == IF In(r, k) THEN r.F[GroupAt(r, k)] ELSE one
IsZero(r, k) == In(r, k) /\ r.zero[GroupAt(r, k)]
Usable(r) == r.es # <<>> /\ \A i \in DOMAIN r.F : IsNum(r.F[i])

RowOf(e, mt) == e.rows[CHOOSE i \in DOMAIN e.rows : e.rows[i].mt = mt]
Mts(e) == {e.rows[i].mt : i \in DOMAIN e.rows}
Sampled(e) == {e.rows[i].mt : i \in {j \in DOMAIN e.rows : e.rows[j].smp}}
Changed(e) == P!Closure(Sampled(e), Mts(e))

Scaled(r, k) == P!ScaleOne(r.b[k], Factor(r, k, 100000), IsZero(r, k), 1024)
Tol(r, k) == (Max2(r.b[k], 1024) \div 2) + 4

\* sums: the base plus the changes of the constituents as written
Delta(c, i) == LET v == i - c.first + 1 IN IF v \in 1..Len(c.b) THEN c.s[v] - 100000 * c.b[v] ELSE 0
AllNum(e) == \A i \in DOMAIN e.rows : Len(e.rows[i].s) = Len(e.rows[i].b) /\ \A k \in DOMAIN e.rows[i].s : IsNum(e.rows[i].s[k])
SumOk(e, r, C) == \A k \in DOMAIN r.b :
    Near(r.s[k], 100000 * r.b[k] + FoldSet(LAMBDA m, acc : acc + Delta(RowOf(e, m), r.first + k - 1), 0, C), 3 * Cardinality(C) + 3)

RowClauses(e, r) ==
    LET C == R!Constituents(r.mt, Mts(e)) \cap Changed(e)
    IN IF r.mt \in R!Sums /\ C # {}
       THEN Must("a sum does not follow its constituents", SumOk(e, r, C))
       ELSE IF r.smp
       THEN IF ~Usable(r) THEN {"a sampled reaction has no usable factors"}
            ELSE Must("a sampled reaction is not base times factor",
                      \A k \in DOMAIN r.b : Near(r.s[k], Scaled(r, k), Tol(r, k)))
       ELSE Must("a reaction that was not sampled was changed",
                 \A k \in DOMAIN r.b : Near(r.s[k], 100000 * r.b[k], 2))

NuOk(r) == IF ~r.smp THEN \A k \in DOMAIN r.b : Near(r.s[k], 10000 * r.b[k], 2)
           ELSE Usable(r) /\ \A k \in DOMAIN r.b : Near(r.s[k], r.b[k] * Factor(r, k, 10000), (r.b[k] \div 2) + 4)

\* num / den with six decimals, by long division (32-bit integers)
RECURSIVE Digits(_, _, _)
Digits(rem, den, n) == IF n = 0 THEN 0
    ELSE LET d == (rem * 10) \div den
             p == CASE n = 6 -> 100000 [] n = 5 -> 10000 [] n = 4 -> 1000 [] n = 3 -> 100 [] n = 2 -> 10 [] OTHER -> 1
         IN d * p + Digits((rem * 10) % den, den, n - 1)
Micro(num, den) == IF num < 0 THEN -(((-num) \div den) * 1000000 + Digits((-num) % den, den, 6))
                   ELSE (num \div den) * 1000000 + Digits(num % den, den, 6)

ChiNum(r, k) == (r.C[k] * 40000) + SumSeq([j \in 1..k |-> (Factor(r, j, 10000) - 10000) * r.P[j] * r.dE[j]])
ChiOk(r) ==
    LET n == Len(r.P) IN
    /\ Len(r.sp) = n /\ Len(r.sc) = n
    /\ IF ~r.smp
       THEN \A k \in 1..n : /\ Near(r.sp[k], Micro(r.P[k], 1024), 2)
                            /\ Near(r.sc[k], Micro(r.C[k], 1024), 2)
       ELSE /\ Usable(r)
            /\ LET N == ChiNum(r, n) IN
               /\ N > 0
               /\ \A k \in 1..n : /\ Near(r.sp[k], Micro(4 * r.P[k] * Factor(r, k, 10000), N), (Abs(r.sp[k]) \div 1500) + 30)
                                  /\ Near(r.sc[k], Micro(ChiNum(r, k), N), 500)
               /\ r.sc[n] = 1000000
               /\ Near(r.sc[1], Micro(r.C[1] * 40000, N), 500)

FileClauses(e) == UNION {
    Must("the header was changed", e.header),
    Must("data that belongs to no reaction was changed", e.other = <<>>),
    Must("values are missing or not numbers", AllNum(e)),
    IF AllNum(e) THEN UNION {RowClauses(e, e.rows[i]) : i \in DOMAIN e.rows} ELSE {},
    Must("nubar is not base times factor in every copy", \A i \in DOMAIN e.nu : NuOk(e.nu[i])),
    Must("the fission spectrum is not the scaled, normalised one", \A i \in DOMAIN e.chi : ChiOk(e.chi[i]))}

Clauses(e) == CASE e.ev = "run" -> RunClauses(e)
                [] e.ev = "table" -> TableClauses(e)
                [] e.ev = "file" -> FileClauses(e)

TraceInit == l = 0
TraceNext == l < Len(Trace) /\ l' = l + 1 /\ Report(l + 1, Clauses(Trace[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
===============================================================================

---------------------------- MODULE Trace_Levels ----------------------------
(* Judges cross sections of resolved resonances against Levels.               *)
EXTENDS Verdict
VARIABLES l
L == INSTANCE Levels WITH Spins2 <- {}, Ls <- {}, Energies <- {}, Widths <- {}, Kappas <- {}, Phases <- {},
     I2 <- 0, l1 <- 0, J2 <- 0, e1 <- 0, ee <- 0, gn <- 0, gg <- 0, gf <- 0, kap <- 0, ph <- 0
Like(a, b) == L!Abs(a - b) <= 600 + (L!Abs(b) \div 1000)
\* far from a level, to second order in a small number; thousandths
Little(e) == LET b == IF e.d > 0 THEN (500 * e.n) \div e.d ELSE -((500 * e.n) \div (-e.d)) IN    \* K = i b - c, in thousandths
    LET amp == ((1000 * e.a) - b) \div 10 IN
    <<(4 * amp * amp) \div 10, (1000 * e.n * e.m) \div (e.d * e.d), 0>>
Judge(e) ==
    IF e.exc # "" THEN {"reconstruction failed"} ELSE
    IF e.ev = "sigma" THEN
        LET s == L!Sigma(e.form, e.I2, e.cs, e.E) IN UNION {
            Must("elastic cross section", Like(e.got[1], s[1])),
            Must("capture cross section", Like(e.got[2], s[2])),
            Must("fission cross section", Like(e.got[3], s[3]))}
    ELSE IF e.ev = "tiny" THEN
        LET s == Little(e) IN
        Must("cross section far from the levels", \A i \in 1..3 : L!Abs(e.got[i] - s[i]) <= 20 + (L!Abs(s[i]) \div 200))
    ELSE IF e.ev = "whole" THEN
        LET part(r) == L!Sigma(r.form, r.I2, r.cs, e.E)[CASE e.mt = 2 -> 1 [] e.mt = 102 -> 2 [] e.mt = 18 -> 3]
            res == IF Len(e.ranges) = 0 THEN {0} ELSE {part(e.ranges[i]) : i \in DOMAIN e.ranges} IN
        Must("cross section of file 3 and the resonances together", \E b \in ToSet(e.bg) : \E r \in res : Like(e.got, b + r))
    ELSE IF e.ev = "zero" THEN UNION {
        Must("the cross section at zero temperature does not cover its range", e.x[1] = e.lo /\ e.x[Len(e.x)] = e.hi),
        Must("energies at zero temperature out of order", \A i \in 1..(Len(e.x) - 1) : e.x[i] <= e.x[i + 1]),
        Must("sizes of the tables at zero temperature", e.same[1] = e.same[2] /\ e.same[1] = e.same[3]),
        Must("the cross section at zero temperature is not that of the resonances", \A i \in DOMAIN e.at : L!Abs(e.at[i] - 100000) <= 1000)}
    ELSE {"unknown event"}
TraceInit == l = 0
TraceNext == l < Len(Trace) /\ l' = l + 1 /\ Report(l + 1, Judge(Trace[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
===========================================================================

---------------------------- MODULE Trace_Grid ----------------------------
(* Judges tables made by linearising and thinning, and elastic cross sections  *)
(* at zero temperature, against Grid.                                          *)
EXTENDS Verdict
VARIABLES l
G == INSTANCE Grid WITH N <- 0, Values <- {}, Tolerances <- {}, f <- 0, init <- 0, tol <- 0

Nuclide(s) == [temps |-> s.temps, grid |-> s.grid, rest |-> s.rest]
\* one addition of the elastic cross section at zero temperature after another
RECURSIVE Adds(_, _, _)
Adds(e, zero, i) ==
    IF i > Len(e.adds) THEN {} ELSE
    LET a == e.adds[i]
        refuse == zero # <<>> /\ ~a.overwrite
        n == IF refuse THEN zero ELSE G!Thinned(a.xy, [num |-> 1, den |-> 1000])
        j == UNION {
            Must("data there are were not kept or refused", refuse = (a.exc # "")),
            Must("the elastic cross section at zero temperature is not the evaluation's, thinned", (a.exc # "" /\ ~refuse) \/ a.got = n),
            Must("the energies at zero temperature are not those of the cross section", (a.exc # "" /\ ~refuse) \/ a.grid = [k \in DOMAIN n |-> n[k][1]]),
            Must("other data of the nuclide changed", a.rest = e.rest)}
    IN IF j # {} THEN j ELSE Adds(e, n, i + 1)

Judge(e) ==
    IF e.ev = "lin" THEN
        LET t == [num |-> e.num, den |-> e.den]
            lin == G!Linearized(e.f, e.init, t) IN
        IF e.exc # "" THEN {"linearising failed"} ELSE UNION {
            Must("the linearised table", e.lin = lin),
            Must("the thinned table", e.lin # lin \/ e.thin = G!Thinned(lin, t))}
    ELSE IF e.ev = "thin" THEN
        IF e.exc # "" THEN {"thinning failed"} ELSE UNION {
            Must("the thinned table", e.got = G!Thinned(e.xy, [num |-> e.num, den |-> e.den])),
            Must("thinning changed the table it was given", e.kept)}
    ELSE IF e.ev = "zero" THEN Adds(e, <<>>, 1)
    ELSE {"unknown event"}
TraceInit == l = 0
TraceNext == l < Len(Trace) /\ l' = l + 1 /\ Report(l + 1, Judge(Trace[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
===========================================================================

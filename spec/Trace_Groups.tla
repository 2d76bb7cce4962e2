---------------------------- MODULE Trace_Groups ----------------------------
(* Judges recorded calls of the group-to-pointwise mapping.                  *)
EXTENDS Verdict
VARIABLES l
G == INSTANCE Groups WITH Ticks <- {}, MaxGroups <- 0, MaxEnergies <- 0,
        high <- <<>>, lo <- 0, hi <- 0, es <- <<>>, out <- <<>>

\* ev = map: high, lo, hi, es (ticks), vals, fill, out (value ids), exc, mutated
Clauses(e) ==
    IF G!Acceptable(e.high, e.lo, e.hi)
    THEN UNION {
        Must("mapping refused a valid request", e.exc = ""),
        Must("result not parallel to the energies", e.exc # "" \/ Len(e.out) = Len(e.es)),
        Must("an energy did not get the value of its group",
             e.exc # "" \/ Len(e.out) # Len(e.es) \/
             \A i \in DOMAIN e.es : ~G!InRange(e.lo, e.hi, e.es[i]) \/
                 e.out[i] = e.vals[G!GroupOf(e.high, e.lo, e.hi, e.es[i])]),
        Must("an energy outside the range did not get the fill value",
             e.exc # "" \/ Len(e.out) # Len(e.es) \/
             \A i \in DOMAIN e.es : G!InRange(e.lo, e.hi, e.es[i]) \/ e.out[i] = e.fill),
        Must("the caller's data was changed", ~e.mutated)}
    ELSE Must("an inconsistent range was accepted", e.exc # "")

TraceInit == l = 0
TraceNext == l < Len(Trace) /\ l' = l + 1 /\ Report(l + 1, Clauses(Trace[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
==============================================================================

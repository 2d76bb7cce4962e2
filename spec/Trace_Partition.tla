---------------------------- MODULE Trace_Partition ----------------------------
(* Judges recorded parallel runs against Partition: who opened which output,      *)
(* who died, and what is left at the end compared with a run of one process.      *)
EXTENDS Verdict
VARIABLES l, writer, open, dead, outs, own, np
vars == <<l, writer, open, dead, outs, own, np>>

Set(s) == {s[i] : i \in DOMAIN s}
Owner(n) == {r.p : r \in {x \in own : x.name = n}}

\* Partition!OneWriter
OpenClauses(e) ==
    Must("two processes write the same file", e.name \notin outs \/ \A r \in writer : r.name = e.name => r.p = e.p)
\* Partition!Complete, Loss, AtMostOnePartial
Whole(e, n) == \E i \in DOMAIN e.files : e.files[i].name = n /\ (e.files[i].same \/ ~e.det)
Present(e, n) == \E i \in DOMAIN e.files : e.files[i].name = n
Unfinished(n) == \E r \in open : r.name = n /\ r.p \in dead
FinalClauses(e) ==
    LET names == {e.files[i].name : i \in DOMAIN e.files}
        lost == {n \in outs : ~Whole(e, n)}
    IN UNION {
        Must("processes wait for ever", ~e.stuck \/ dead # {}),
        Must("a file is missing", \A n \in lost : Present(e, n) \/ (dead # {} /\ (own = {} \/ Owner(n) \subseteq dead))),
        Must("a file differs from that of a run with one process", \A n \in lost : ~Present(e, n) \/ Unfinished(n)),
        Must("a process that died left several unfinished files",
             \A p \in dead : Cardinality({n \in outs : \E r \in open : r.name = n /\ r.p = p}) <= 1),
        Must("unexpected files", dead # {} \/ names \subseteq outs)}

Clauses(e) == CASE e.ev = "start" -> UNION {Must("the run with one process failed", e.exc = ""),
                                            Must("the run with one process left nothing", e.exc # "" \/ e.outs # <<>>)}
    [] e.ev \in {"open", "move"} -> OpenClauses(e)
    [] e.ev = "end" -> Must("a process failed", e.exc = "" \/ dead # {})
    [] e.ev = "final" -> FinalClauses(e)
    [] OTHER -> {}

Step(e) ==
    /\ outs' = IF e.ev = "start" THEN Set(e.outs) ELSE outs
    /\ own' = IF e.ev = "start" THEN Set(e.own) ELSE own
    /\ np' = IF e.ev = "start" THEN e.np ELSE np
    /\ dead' = CASE e.ev = "start" -> {} [] e.ev = "die" -> dead \cup {e.p} [] OTHER -> dead
    /\ writer' = CASE e.ev = "start" -> {} [] e.ev \in {"open", "move"} -> writer \cup {[name |-> e.name, p |-> e.p]} [] OTHER -> writer
    /\ open' = CASE e.ev = "start" -> {} [] e.ev = "open" -> open \cup {[name |-> e.name, p |-> e.p]}
                 [] e.ev = "close" -> open \ {[name |-> e.name, p |-> e.p]} [] OTHER -> open

TraceInit == l = 0 /\ writer = {} /\ open = {} /\ dead = {} /\ outs = {} /\ own = {} /\ np = 0
TraceNext == l < Len(Trace) /\ l' = l + 1 /\ Report(l + 1, Clauses(Trace[l + 1])) /\ Step(Trace[l + 1])
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
===============================================================================

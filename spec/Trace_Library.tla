---------------------------- MODULE Trace_Library ----------------------------
(* Judges histories of a data library step by step against Library.           *)
EXTENDS Verdict
VARIABLES l
L == INSTANCE Library WITH MaxOps <- 0, Hows <- {}, st <- 0, was <- 0, ops <- 0

Same(s, got) == /\ Len(got) = Len(s.lib)
                /\ \A i \in DOMAIN got : got[i].p = L!Resolve(s.cwd, s.lib[i].sp) /\ got[i].type = s.lib[i].type /\ got[i].mats = s.lib[i].mats
FoundOk(s, m, found) ==
    LET S == L!HasIn(s.lib, m) IN
    IF S = {} THEN found = <<>>
    ELSE LET x == s.lib[L!First(S)] IN found = <<[p |-> L!Resolve(s.cwd, x.sp), type |-> x.type, mats |-> x.mats]>>

RECURSIVE Steps(_, _, _)
Steps(s, e, i) ==
    IF i > Len(e.ops) THEN {} ELSE
    LET op == e.ops[i]
        o == e.out[i]
        n == L!Do(s, op)
        j == IF L!Fails(s, op) THEN Must("a file that is none or not there was taken", o.exc # "") \cup Must("a refused step changed the library", Same(n, o.lib))
             ELSE IF o.exc # "" THEN {op.k \o " failed"}
             ELSE UNION {
                Must(op.k \o ": the library is not the files registered, in order, with type and materials", Same(n, o.lib)),
                Must("the library written is not the one there is", op.k # "export" \/ o.xml = L!Listed(s, op.d)),
                Must("the file found for a material", op.k # "find" \/ FoundOk(s, op.m, o.found))}
    IN IF j # {} THEN j ELSE Steps(n, e, i + 1)

Judge(e) == IF e.ev = "history" THEN Steps(L!Start, e, 1) ELSE {"unknown event"}
TraceInit == l = 0
TraceNext == l < Len(Trace) /\ l' = l + 1 /\ Report(l + 1, Judge(Trace[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
==============================================================================

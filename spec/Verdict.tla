------------------------------- MODULE Verdict -------------------------------
(* Common to all trace specifications: reading a recorded trace, and total   *)
(* verdicts that name the clause an event breaks.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* sentinels of the drivers for numbers that are not representable
NaN == 2000000001
PInf == 2000000002
NInf == 2000000003
Big == 2000000004
IsNum(x) == x > -2000000000 /\ x < 2000000000

\* a clause is a set of broken clause names, empty if it holds
Must(name, ok) == IF ok THEN {} ELSE {name}

Report(l, clauses) == IF clauses = {} THEN TRUE ELSE PrintT("FAIL " \o ToString(l) \o " " \o ToString(clauses))

Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == IsNum(a) /\ IsNum(b) /\ Abs(a - b) <= tol
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
NearSeq(s, t, tol) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Near(s[i], t[i], tol)
SumSeq(s) == FoldSeq(LAMBDA x, acc : x + acc, 0, s)
==============================================================================

------------------------------- MODULE AceText -------------------------------
(* Rewriting the text of an ACE file: a fixed header and a stream of data      *)
(* tokens, in which runs of tokens are exchanged.  Tokens are abstract ids.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RunAt(toks, arr, i) == i + Len(arr) - 1 <= Len(toks) /\ \A k \in 1..Len(arr) : toks[i + k - 1] = arr[k]
Found(toks, arr) == \E i \in 1..Len(toks) : RunAt(toks, arr, i)
FirstFrom(toks, arr, from) ==
    LET S == {i \in from..Len(toks) : RunAt(toks, arr, i)} IN
    IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Overlay(toks, new, i) == [k \in 1..Len(toks) |-> IF k >= i /\ k < i + Len(new) THEN new[k - i + 1] ELSE toks[k]]

\* left to right, at most max runs, what was exchanged is not looked at again
RECURSIVE ReplaceFrom(_, _, _, _, _)
ReplaceFrom(toks, arr, new, max, from) ==
    LET i == IF max = 0 THEN 0 ELSE FirstFrom(toks, arr, from) IN
    IF i = 0 THEN toks ELSE ReplaceFrom(Overlay(toks, new, i), arr, new, max - 1, i + Len(arr))

Accepted(toks, arr, new) == Len(arr) = Len(new) /\ Found(toks, arr)
Replaced(toks, arr, new, max) ==
    IF Accepted(toks, arr, new) THEN ReplaceFrom(toks, arr, new, max, 1) ELSE toks

\* the written file: four values a line, 20 columns each
LineCounts(n) == [i \in 1..((n + 3) \div 4) |-> IF 4 * i <= n THEN 4 ELSE n % 4]

(***************************************************************************)
CONSTANTS Token, MaxLen, MaxArr, MaxOps
VARIABLES base, toks, written, ops
tvars == <<base, toks, written, ops>>

Seqs(n) == UNION {[1..k -> Token] : k \in 1..n}
TInit == /\ base \in Seqs(MaxLen) /\ toks = base /\ written = <<>> /\ ops = <<>>
Replace(arr, new, max) ==
    /\ Len(ops) < MaxOps
    /\ toks' = Replaced(toks, arr, new, max)
    /\ ops' = Append(ops, [op |-> "replace", arr |-> arr, new |-> new, max |-> max])
    /\ UNCHANGED <<base, written>>
Write == /\ written # toks /\ written' = toks /\ UNCHANGED <<base, toks, ops>>
TNext == Write \/ \E arr, new \in Seqs(MaxArr), max \in 1..2 : Replace(arr, new, max)
TSpec == TInit /\ [][TNext]_tvars

LengthKept == Len(toks) = Len(base)
NothingMeansIdentity == ops = <<>> => toks = base
\* only positions inside a run that was there can differ
OnlyRuns == [][\A arr, new \in Seqs(MaxArr), max \in 1..2 : Replace(arr, new, max) =>
     \A p \in 1..Len(toks) : toks'[p] # toks[p] =>
        \E i \in 1..Len(toks) : RunAt(toks, arr, i) /\ p >= i /\ p < i + Len(arr)]_tvars
WrittenIsAState == written = <<>> \/ Len(written) = Len(base)
==============================================================================

------------------------------- MODULE Pipeline -------------------------------
(* Making one sampled ACE file: the requested reactions that are on the file   *)
(* are scaled one after the other, the sum rules are applied after each, and    *)
(* the arrays of the adjusted reactions are exchanged by value in the text of   *)
(* the base file.  What must come out is stated declaratively (Outcome).        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

CONSTANTS Bases,        \* tables: mt -> [first, y], as in Editor
          Patterns,     \* factors per grid point a reaction may get
          Zeros,        \* sets of grid points lying in groups of mean zero
          Requests      \* sequences of requested reactions
VARIABLES base, fac, zero, queue, done, cur, adj, text

Ed == INSTANCE Editor WITH Files <- {}, Deltas <- <<>>, MaxOps <- 0,
        orig <- base, cur <- cur, adj <- adj, applied <- TRUE, ops <- <<>>
pvars == <<base, fac, zero, queue, done, cur, adj, text>>

\* a zero cross section in a group of mean zero takes the sampled value itself
ScaleOne(y, f, isZero, one) == (IF y = 0 /\ isZero THEN one ELSE y) * f

Scaled(t, mt) == [k \in 1..Len(t[mt].y) |->
    ScaleOne(t[mt].y[k], fac[mt][t[mt].first + k - 1], (t[mt].first + k - 1) \in zero, 1)]

OnFile(req, t) == SelectSeq(req, LAMBDA m : m \in DOMAIN t)

\* reactions changed by the sampling of S on a file holding P
RECURSIVE Closure(_, _)
Closure(S, P) ==
    LET n == S \cup {s \in P \cap Ed!Sums : Ed!Constituents(s, P) \cap S # {}}
    IN IF n = S THEN S ELSE Closure(n, P)

\* ---- what must come out ---------------------------------------------------
RuleWins(mt, S, P) == mt \in Ed!Sums /\ Ed!Constituents(mt, P) \cap Closure(S, P) # {}
RECURSIVE OutY(_, _, _)
OutY(mt, S, k) ==     \* value of mt at its k-th point
    LET P == DOMAIN base
        i == base[mt].first + k - 1
        v(c) == i - base[c].first + 1
        on(c) == v(c) \in 1..Len(base[c].y)
    IN IF RuleWins(mt, S, P)
       THEN base[mt].y[k] +
            FoldSet(LAMBDA c, acc : acc + IF on(c) THEN OutY(c, S, v(c)) - base[c].y[v(c)] ELSE 0,
                    0, Ed!Constituents(mt, P) \cap Closure(S, P))
       ELSE IF mt \in S THEN Scaled(base, mt)[k] ELSE base[mt].y[k]
Outcome(mt, S) == [k \in 1..Len(base[mt].y) |-> OutY(mt, S, k)]

\* ---- the process ------------------------------------------------------------
PInit == /\ base \in Bases
         /\ fac \in [DOMAIN base -> Patterns]
         /\ zero \in Zeros
         /\ queue \in {OnFile(q, base) : q \in Requests}
         /\ done = {} /\ cur = base /\ adj = {}
         /\ text = <<>>

Sample == /\ queue # <<>>
          /\ LET mt == Head(queue)
                 c1 == Ed!Put(cur, mt, Scaled(cur, mt))
                 r == Ed!ApplyRules(base, c1, adj \cup {mt})
             IN cur' = r[1] /\ adj' = r[2] /\ done' = done \cup {mt}
          /\ queue' = Tail(queue)
          /\ UNCHANGED <<base, fac, zero, text>>

\* the file's arrays, in an order: total, disappearance, elastic, then the others
FileOrder(t) == SelectSeq(<<1, 101, 2>>, LAMBDA m : m \in DOMAIN t)
                \o SetToSortSeq(DOMAIN t \ {1, 2, 101}, <)
RECURSIVE Exchange(_, _)
Exchange(arrays, todo) ==      \* by value, lowest reaction first, first match only
    IF todo = <<>> THEN arrays
    ELSE LET mt == Head(todo)
             hits == {i \in 1..Len(arrays) : arrays[i] = base[mt].y}
         IN Exchange(IF hits = {} THEN arrays ELSE [arrays EXCEPT ![Min(hits)] = cur[mt].y], Tail(todo))
Write == /\ queue = <<>> /\ text = <<>>
         /\ text' = Exchange([i \in 1..Len(FileOrder(base)) |-> base[FileOrder(base)[i]].y], SetToSortSeq(adj, <))
         /\ UNCHANGED <<base, fac, zero, queue, done, cur, adj>>

PNext == Sample \/ Write
PSpec == PInit /\ [][PNext]_pvars

\* ---- design properties --------------------------------------------------------
\* whatever the order of the requests, the table ends as stated
AsStated == queue = <<>> => \A mt \in DOMAIN base : cur[mt].y = Outcome(mt, done)
AdjustedIsClosure == queue = <<>> => adj = Closure(done, DOMAIN base)
\* values found by value are found at their place, if no two arrays are the same ...
\* (a replaced array may become equal to one still to be replaced; the lowest comes first)
Distinct == \A a, b \in DOMAIN base : a # b => base[a].y # base[b].y
NoCollision == \A a, b \in DOMAIN base : a # b => cur[a].y # base[b].y
Faithful == text # <<>> /\ Distinct /\ NoCollision =>
    \A i \in 1..Len(text) : text[i] = cur[FileOrder(base)[i]].y
\* ... and also if disappearance is capture alone
CaptureOnly == /\ {101, 102} \subseteq DOMAIN base /\ base[101].y = base[102].y
               /\ \A a, b \in DOMAIN base : a # b /\ {a, b} # {101, 102} => base[a].y # base[b].y
FaithfulCapture == text # <<>> /\ CaptureOnly /\ NoCollision /\ {101, 102} \subseteq adj =>
    \A i \in 1..Len(text) : text[i] = cur[FileOrder(base)[i]].y
===============================================================================

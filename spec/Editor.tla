-------------------------------- MODULE Editor --------------------------------
(* An editor of one loaded ACE table: the file's cross sections (orig), the     *)
(* present ones (cur), the reactions touched (adj).  A reaction lives on a      *)
(* contiguous part first..first+n-1 of the main grid; ys are its values there.  *)
EXTENDS Reactions, FiniteSetsExt, SequencesExt

\* a table is a function  mt -> [first |-> grid index, y |-> values]
At(t, mt, i) == IF i >= t[mt].first /\ i < t[mt].first + Len(t[mt].y)
                THEN t[mt].y[i - t[mt].first + 1] ELSE 0

\* value at position p, in half steps of the grid (2i is grid point i), linear between
AtHalf(t, mt, p) ==
    IF p % 2 = 0 THEN At(t, mt, p \div 2)
    ELSE LET i == p \div 2 IN
         IF i >= t[mt].first /\ i + 1 < t[mt].first + Len(t[mt].y)
         THEN (At(t, mt, i) + At(t, mt, i + 1)) \div 2 ELSE 0

Put(t, mt, ys) == [t EXCEPT ![mt].y = ys]

\* one sum rule: the sum's original plus the changes of its adjusted constituents
Touched(orig, adj, mt) == Constituents(mt, DOMAIN orig) \cap adj
ResumY(orig, cur, adj, mt) ==
    [k \in 1..Len(orig[mt].y) |->
        orig[mt].y[k] + FoldSet(LAMBDA c, acc : acc + At(cur, c, orig[mt].first + k - 1) - At(orig, c, orig[mt].first + k - 1),
                                0, Touched(orig, adj, mt))]

RECURSIVE ApplyFrom(_, _, _, _)
ApplyFrom(orig, cur, adj, k) ==
    IF k > Len(SumOrder) THEN <<cur, adj>>
    ELSE LET s == SumOrder[k] IN
         IF s \in DOMAIN orig /\ Touched(orig, adj, s) # {}
         THEN ApplyFrom(orig, Put(cur, s, ResumY(orig, cur, adj, s)), adj \cup {s}, k + 1)
         ELSE ApplyFrom(orig, cur, adj, k + 1)
ApplyRules(orig, cur, adj) == ApplyFrom(orig, cur, adj, 1)

(***************************************************************************)
(* The editor as a state machine                                            *)
(***************************************************************************)
CONSTANTS Files,       \* the tables that may be loaded
          Deltas,      \* changes a caller makes to single grid points
          MaxOps
VARIABLES orig, cur, adj, applied, ops
evars == <<orig, cur, adj, applied, ops>>

EInit == /\ orig \in Files
         /\ cur = orig /\ adj = {} /\ applied = TRUE /\ ops = <<>>

Bounded == Len(ops) < MaxOps
Log(r) == ops' = Append(ops, r)

\* accepted edit: the caller's values replace the reaction's; k tells the pattern
Pattern(mt, k) == [i \in 1..Len(orig[mt].y) |-> orig[mt].y[i] + Deltas[((i + k) % Len(Deltas)) + 1]]
Set(mt, k) == /\ Bounded /\ cur' = Put(cur, mt, Pattern(mt, k)) /\ adj' = adj \cup {mt}
              /\ applied' = FALSE /\ Log([op |-> "set", mt |-> mt, k |-> k]) /\ UNCHANGED orig
\* refused edits: wrong length, reaction not on the file
BadSet(mt) == Bounded /\ Log([op |-> "bad", mt |-> mt, k |-> Len(ops)]) /\ UNCHANGED <<orig, cur, adj, applied>>
\* a caller scribbles over what it read
Scribble(mt) == Bounded /\ Log([op |-> "scribble", mt |-> mt, k |-> 0]) /\ UNCHANGED <<orig, cur, adj, applied>>
\* another editor of the same file edits and applies
Other(mt) == Bounded /\ Log([op |-> "other", mt |-> mt, k |-> 1]) /\ UNCHANGED <<orig, cur, adj, applied>>
Apply == /\ Bounded
         /\ LET r == ApplyRules(orig, cur, adj) IN cur' = r[1] /\ adj' = r[2]
         /\ applied' = TRUE /\ Log([op |-> "apply", mt |-> 0, k |-> 0]) /\ UNCHANGED orig

Mts == DOMAIN orig
ENext == \/ \E mt \in Mts, k \in 0..1 : Set(mt, k)
         \/ \E mt \in Mts : BadSet(mt) \/ Scribble(mt) \/ Other(mt)
         \/ Apply
ESpec == EInit /\ [][ENext]_evars

\* ---- design properties -----------------------------------------------------
OrigStable == [][orig' = orig]_evars
\* what is not adjusted is the file's
Isolation == \A mt \in Mts : mt \notin adj => cur[mt] = orig[mt]
\* edited reactions, and the sums of which a constituent is adjusted, at any depth
AdjustedClosed == applied => \A s \in Mts \cap Sums : Touched(orig, adj, s) # {} => s \in adj
\* after applying the rules every sum with adjusted constituents obeys its rule
RulesHold == applied => \A s \in Mts \cap Sums :
    Touched(orig, adj, s) # {} => cur[s].y = ResumY(orig, cur, adj, s)
Idempotent == applied => ApplyRules(orig, cur, adj) = <<cur, adj>>
\* if only reactions that are no sums were edited, the total changes by the sum of their changes
EditedLeavesOnly == \A i \in 1..Len(ops) : ops[i].op = "set" => ops[i].mt \notin Sums
TotalFollows == applied /\ EditedLeavesOnly /\ 1 \in Mts =>
    \A k \in 1..Len(orig[1].y) :
        cur[1].y[k] - orig[1].y[k] =
        FoldSet(LAMBDA c, acc : acc + At(cur, c, k) - At(orig, c, k), 0, (adj \ Sums) \cap Below(1))
===============================================================================

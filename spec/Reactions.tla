------------------------------ MODULE Reactions ------------------------------
(* The ENDF-6 sum rules for incident neutrons: which reactions make up which. *)
EXTENDS Integers, Sequences, FiniteSets

Sums == {1, 3, 4, 16, 18, 27, 101, 103, 104, 105, 106, 107}

Parts(mt) ==
    CASE mt = 1   -> {2, 3}
      [] mt = 3   -> {4, 5, 11, 16, 17, 27} \cup (22..25) \cup (28..30) \cup (32..37) \cup {41, 42, 44, 45}
                     \cup (152..154) \cup (156..181) \cup (183..190) \cup {194, 195, 196, 198, 199, 200}
      [] mt = 4   -> 50..91
      [] mt = 16  -> 875..891
      [] mt = 18  -> {19, 20, 21, 38}
      [] mt = 27  -> {18, 101}
      [] mt = 101 -> (102..109) \cup (111..117) \cup {155, 182, 191, 192, 193, 197}
      [] mt = 103 -> 600..649
      [] mt = 104 -> 650..699
      [] mt = 105 -> 700..749
      [] mt = 106 -> 750..799
      [] mt = 107 -> 800..849
      [] OTHER    -> {}

\* the constituents of a sum on a file with the reactions present: a sum that is
\* not on the file is replaced by its own constituents
RECURSIVE Constituents(_, _)
Constituents(mt, present) ==
    UNION {IF c \in present THEN {c}
           ELSE IF c \in Sums THEN Constituents(c, present) ELSE {} : c \in Parts(mt)}

\* sums in an order in which constituents come before the sums that contain them
SumOrder == <<107, 106, 105, 104, 103, 101, 18, 27, 16, 4, 3, 1>>

\* all reactions below mt, at any depth
RECURSIVE Below(_)
Below(mt) == UNION {{c} \cup Below(c) : c \in Parts(mt)}
BelowTab == [s \in Sums |-> Below(s)]
==============================================================================

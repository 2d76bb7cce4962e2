------------------------------- MODULE Partition -------------------------------
(* A parallel sampling run after the samples have been drawn and broadcast:      *)
(* the jobs (one ACE file per sample, one table per reaction) are divided among   *)
(* the processes in whatever way; each process works through its own jobs, each   *)
(* in two steps (the file is opened, the file is complete), in any interleaving,  *)
(* and may die at any point.                                                      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Procs, Jobs, Tables,      \* Tables \subseteq Jobs
          Owners,                   \* the divisions considered: functions Jobs -> Procs
          MaxDeaths, Record         \* Record: keep the schedule
VARIABLES owner,     \* job -> process
          file,      \* job -> "absent", "partial", "complete"
          writer,    \* job -> processes that opened its file
          hand,      \* process -> job it is writing, or None
          alive, sched
vars == <<owner, file, writer, hand, alive, sched>>

None == -1
Note(r) == sched' = IF Record THEN Append(sched, r) ELSE sched
Init == /\ owner \in Owners
        /\ file = [j \in Jobs |-> "absent"] /\ writer = [j \in Jobs |-> {}]
        /\ hand = [p \in Procs |-> None] /\ alive = Procs /\ sched = <<>>

\* tables are written after the process' samples
Due(p, j) == /\ owner[j] = p /\ file[j] = "absent"
             /\ j \in Tables => \A k \in Jobs \ Tables : owner[k] = p => file[k] # "absent"
\* the next job of a process: the lowest one due
NextJob(p) == CHOOSE j \in Jobs : Due(p, j) /\ \A k \in Jobs : Due(p, k) => (k = j \/ k > j \/ (k \in Tables /\ j \notin Tables))
Busy(p) == hand[p] # None \/ \E j \in Jobs : Due(p, j)

Open(p) == /\ p \in alive /\ hand[p] = None /\ \E j \in Jobs : Due(p, j)
           /\ LET j == NextJob(p) IN
                /\ file' = [file EXCEPT ![j] = "partial"]
                /\ writer' = [writer EXCEPT ![j] = @ \cup {p}]
                /\ hand' = [hand EXCEPT ![p] = j]
           /\ Note([p |-> p, do |-> "step"])
           /\ UNCHANGED <<owner, alive>>
Close(p) == /\ p \in alive /\ hand[p] # None
            /\ file' = [file EXCEPT ![hand[p]] = "complete"]
            /\ hand' = [hand EXCEPT ![p] = None]
            /\ Note([p |-> p, do |-> "step"])
            /\ UNCHANGED <<owner, writer, alive>>
Die(p) == /\ p \in alive /\ Busy(p) /\ Cardinality(Procs \ alive) < MaxDeaths
          /\ alive' = alive \ {p}
          /\ Note([p |-> p, do |-> "die"])
          /\ UNCHANGED <<owner, file, writer, hand>>
Next == \E p \in Procs : Open(p) \/ Close(p) \/ Die(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Open(p)) /\ WF_vars(Close(p))

Over == \A p \in alive : ~Busy(p)
\* ---- what holds of every run ------------------------------------------------
OneWriter == \A j \in Jobs : Cardinality(writer[j]) <= 1
OnlyOwners == \A j \in Jobs : writer[j] \subseteq {owner[j]}
Complete == Over => \A j \in Jobs : owner[j] \in alive => file[j] = "complete"
\* a death costs only what the dead process had not finished
Loss == Over => \A j \in Jobs : file[j] # "complete" => owner[j] \notin alive
AtMostOnePartial == \A p \in Procs : Cardinality({j \in Jobs : owner[j] = p /\ file[j] = "partial"}) <= 1
Idle == \A p \in Procs : (\A j \in Jobs : owner[j] # p) => \A j \in Jobs : p \notin writer[j]
Finishes == <>Over
===============================================================================

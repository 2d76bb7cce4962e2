------------------------------ MODULE MC_Partition ------------------------------
EXTENDS Partition, TLC, Json
CONSTANTS NP, NS, NT
MCProcs == 0..(NP - 1)
MCJobs == 0..(NS + NT - 1)
MCTables == NS..(NS + NT - 1)
AllOwners == [MCJobs -> MCProcs]
RoundRobin == {[j \in MCJobs |-> IF j < NS THEN j % NP ELSE 0]}
Emit == Over /\ owner \in RoundRobin => PrintT("CASE " \o ToJson([np |-> NP, ns |-> NS, nt |-> NT, sched |-> sched]))
===============================================================================

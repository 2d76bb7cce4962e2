------------------------------ MODULE MC_Sampling ------------------------------
EXTENDS Sampling, TLC, Json
Emit == stage = "given" => PrintT("CASE " \o ToJson([distro |-> distro, vars |-> vars]))
================================================================================

----------------------------- MODULE Trace_Fission -----------------------------
(* Judges recorded histories of spectrum and nubar edits.  Densities per MeV,     *)
(* distributions and yields in millionths; dE in quarters of an MeV.              *)
EXTENDS Verdict
VARIABLES l, st
F == INSTANCE Fission WITH Spectra <- {}, Steps <- {}, Densities <- {}, Nus <- {}, MaxOps <- 0,
        tabs <- <<>>, dE <- <<>>, nu <- 0, orig <- <<>>, ops <- <<>>

RECURSIVE Digits(_, _, _)
Digits(rem, den, n) == IF n = 0 THEN 0
    ELSE LET d == (rem * 10) \div den
             p == CASE n = 6 -> 100000 [] n = 5 -> 10000 [] n = 4 -> 1000 [] n = 3 -> 100 [] n = 2 -> 10 [] OTHER -> 1
         IN d * p + Digits((rem * 10) % den, den, n - 1)
Micro(num, den) == IF num < 0 THEN -(((-num) \div den) * 1000000 + Digits((-num) % den, den, 6))
                   ELSE (num \div den) * 1000000 + Digits(num % den, den, 6)

\* Fission!NewC with the four-millionths the file's units give: D = 1
Num(t, new, k) == (4 * t.c[k]) + SumSeq([j \in 1..k |-> (new[j] - t.p[j]) * t.dE[j]])
TabOk(t, new, p, c) ==
    LET n == Len(new)
        N == Num(t, new, n)
    IN /\ Len(p) = n /\ Len(c) = n
       /\ N > 0 => /\ \A k \in 1..n : Near(p[k], Micro(4 * new[k], N), 3 + (Abs(p[k]) \div 40000))
                   /\ \A k \in 1..n : Near(c[k], Micro(Num(t, new, k), N), 40)
                   /\ Near(c[n], 1000000, 1)
Fits(s, new) == Len(new) = Len(s.tab) /\ \A i \in DOMAIN new : Len(new[i]) = Len(s.tab[i].p)

P(s) == [i \in DOMAIN s.tab |-> s.tab[i].p]
C(s) == [i \in DOMAIN s.tab |-> s.tab[i].c]
NearTabs(x, y, tol) == Len(x) = Len(y) /\ \A i \in DOMAIN x : NearSeq(x[i], y[i], tol)
Steps(x) == [i \in DOMAIN x |-> [j \in DOMAIN x[i] |-> IF j = 1 THEN 0 ELSE x[i][j] - x[i][j - 1]]]

\* what every step must leave alone
Kept(e, s) == UNION {
    Must("the original spectrum changed", e.old.exc = "" /\ NearTabs(e.old.p, P(s.first), 1) /\ NearTabs(e.old.c, C(s.first), 1)
                                          /\ NearTabs(e.old.g, P(s.first), 1)),
    Must("the original nubar changed", e.nuo.exc = "" /\ NearSeq(e.nuo.y, s.first.nu, 1) /\ NearSeq(e.nuo.g, s.first.nu, 1)),
    Must("outgoing energies changed", e.now.exc = "" /\ Steps(e.now.x) = [i \in DOMAIN s.tab |-> s.tab[i].dE]),
    Must("the prompt yield changed", NearSeq(e.prn, s.first.pr, 1)),
    Must("the two ways of reading differ", e.now.p = e.now.g /\ e.nun.y = e.nun.g),
    Must("the fission cross section changed", e.xsn = s.first.xs)}
SameChi(e, s) == Must("the spectrum changed", NearTabs(e.now.p, P(s), 1) /\ NearTabs(e.now.c, C(s), 1))
SameNu(e, s) == Must("nubar changed", NearSeq(e.nun.y, s.nu, 1))

LoadClauses(e) == IF e.exc # "" THEN {"the file was refused"}
    ELSE LET s == [tab |-> e.tab, nu |-> e.nu, first |-> [tab |-> e.tab, nu |-> e.nu, pr |-> e.pr, xs |-> e.xs], adj |-> {}]
         IN Kept(e, s) \cup SameChi(e, s) \cup SameNu(e, s)

ChiClauses(e, s) == UNION {
    Kept(e, s), SameNu(e, s),
    Must("a fitting density was refused", e.exc = ""),
    Must("the caller's density was changed", e.arg),
    Must("not the given density over one normalisation, and the accumulated distribution",
         e.exc # "" \/ (Len(e.now.p) = Len(e.new) /\ Len(e.now.c) = Len(e.new)
                        /\ \A i \in DOMAIN e.new : TabOk(s.tab[i], e.new[i], e.now.p[i], e.now.c[i]))),
    Must("the edit is not recorded", ~e.via \/ 1018 \in {e.adj[i] : i \in DOMAIN e.adj})}

Clauses(e) == CASE e.ev = "load" -> LoadClauses(e)
    [] e.ev = "chi" -> ChiClauses(e, st)
    [] e.ev = "badchi" -> Kept(e, st) \cup SameChi(e, st) \cup SameNu(e, st)
                          \cup Must("a density that does not fit was accepted", e.exc # "" \/ Fits(st, e.new))
    [] e.ev = "nu" -> UNION {Kept(e, st), SameChi(e, st), Must("nubar edit refused", e.exc = ""),
                             Must("nubar is not the given one", e.exc # "" \/ NearSeq(e.nun.y, e.new, 1)),
                             Must("the edit is not recorded", ~e.via \/ 452 \in {e.adj[i] : i \in DOMAIN e.adj})}
    [] e.ev = "badnu" -> Kept(e, st) \cup SameChi(e, st) \cup SameNu(e, st) \cup Must("nubar of the wrong length was accepted", e.exc # "")
    [] e.ev = "sigma" -> Kept(e, st) \cup SameChi(e, st) \cup SameNu(e, st)

After(e) == IF e.ev = "load"
    THEN [tab |-> e.tab, nu |-> e.nu, first |-> [tab |-> e.tab, nu |-> e.nu, pr |-> e.pr, xs |-> e.xs]]
    ELSE [st EXCEPT !.tab = IF Len(e.now.p) = Len(st.tab) /\ Len(e.now.c) = Len(st.tab)
                            THEN [i \in DOMAIN st.tab |-> [p |-> e.now.p[i], c |-> e.now.c[i], dE |-> st.tab[i].dE]] ELSE st.tab,
                    !.nu = e.nun.y]

TraceInit == l = 0 /\ st = <<>>
TraceNext == l < Len(Trace) /\ l' = l + 1 /\ Report(l + 1, Clauses(Trace[l + 1])) /\ st' = After(Trace[l + 1])
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
===============================================================================

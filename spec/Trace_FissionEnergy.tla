-------------------------- MODULE Trace_FissionEnergy --------------------------
(* Judges the loaded components of the energy released in fission.              *)
EXTENDS Verdict
VARIABLES l
V0 == <<>>
F == INSTANCE FissionEnergy WITH Coefs <- {}, Nus <- {}, TableSets <- {}, cs <- V0, np <- V0, nu <- V0, todo <- V0, f <- V0

At(v, i) == [n \in F!Names |-> v[n][i]]
\* derived functions are tables if a component is: they are known on the union of the points
Tables(e, want) == {n \in F!Names : want[n].k = "tab" \/ (want[n].k = "sher" /\ n = "prompt_neutrons" /\ e.nu.k = "tab")}
GridOf(e, want, n) == IF want[n].k = "tab" THEN Range(want[n].x) ELSE Range(e.nu.x)
UnionKnown(e, want, names, m) ==
    LET t == Tables(e, want) \cap names IN t = {} \/ \E n \in t : m \in GridOf(e, want, n)
Prompt == {"fragments", "prompt_neutrons", "prompt_photons"}
Rec == F!Names \ {"neutrinos"}

JudgeValues(e, g, want) == UNION {LET m == e.pts[i]
                                      v == At(g.c, i) IN UNION {
    UNION {Must("the energy of " \o n, ~F!Known(want[n], n, e.nu, m) \/ Near(v[n], F!Value(want[n], n, e.nu, m), 2)) : n \in F!Names},
    Must("the recoverable energy", ~UnionKnown(e, want, Rec, m) \/ (Near(g.s.recoverable[i], F!Recoverable(v), 9) /\ Near(g.s.q_recoverable[i], F!QRecoverable(v, m), 9))),
    Must("the total energy", ~UnionKnown(e, want, F!Names, m) \/ (Near(g.s.total[i], F!Total(v), 9) /\ Near(g.s.q_total[i], F!QTotal(v, m), 9))),
    Must("the prompt Q value", ~UnionKnown(e, want, Prompt, m) \/ Near(g.s.q_prompt[i], F!QPrompt(v, m), 9))} : i \in DOMAIN e.pts}
JudgeFer(e) ==
    IF e.exc # "" THEN {"the energy released in fission is refused"} ELSE
    LET want == F!ReadAll(F!AfterList(SubSeq(e.cs, 1, 7), e.np), e.tabs) IN
    JudgeValues(e, e.got, want) \cup Must("written and read back", e.back = e.got)
JudgeRefuse(e) == Must("data of another nuclide are accepted", (e.what = "same") = (e.exc = ""))

Judge(e) ==
    CASE e.ev = "fer" -> JudgeFer(e)
      [] e.ev = "refuse" -> JudgeRefuse(e)
      [] OTHER -> {"unknown event"}

TraceInit == l = 0
TraceNext == l < Len(Trace) /\ l' = l + 1 /\ Report(l + 1, Judge(Trace[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
=================================================================================

----------------------------- MODULE Trace_Editor -----------------------------
(* Judges recorded histories of real AceEditor objects.  After every call the  *)
(* driver records the full projection: for each reaction its place on the grid, *)
(* its present values (y), its unadjusted values (o), and the adjusted set.     *)
EXTENDS Verdict
VARIABLES l, orig, cur, adj
E == INSTANCE Editor WITH Files <- {}, Deltas <- <<>>, MaxOps <- 0, applied <- TRUE, ops <- <<>>

Focus == IOEnv.FOCUS        \* "rules" or "edits": which clauses this run is about

ToSet2(s) == {s[i] : i \in DOMAIN s}
Row(rows, mt) == rows[CHOOSE i \in DOMAIN rows : rows[i].mt = mt]
Table(rows) == [mt \in {rows[i].mt : i \in DOMAIN rows} |-> [first |-> Row(rows, mt).first, y |-> Row(rows, mt).y]]
OTable(rows) == [mt \in {rows[i].mt : i \in DOMAIN rows} |-> [first |-> Row(rows, mt).first, y |-> Row(rows, mt).o]]

\* differences of an observed projection from an expected state
Same(name, rows, ecur, eorig) == UNION {
    Must(name, {rows[i].mt : i \in DOMAIN rows} = DOMAIN ecur /\ Table(rows) = ecur),
    Must("the unadjusted data changed", OTable(rows) = eorig)}

Rules(s) == IF Focus = "rules" THEN s ELSE {}
Edits(s) == IF Focus = "edits" THEN s ELSE {}

Judge(e) ==
  CASE e.ev = "load" -> Edits(UNION {
         Must("loading failed", e.exc = ""),
         Must("a fresh editor reads other values than the file's",
              e.exc # "" \/ \A i \in DOMAIN e.file : LET f == e.file[i] IN f.mt \in DOMAIN Table(e.rows) /\ Table(e.rows)[f.mt] = [first |-> f.first, y |-> f.y]),
         Must("a fresh editor has adjusted reactions", e.adj = <<>>),
         Must("the unadjusted data changed", OTable(e.rows) = Table(e.rows))})
    [] e.ev = "set" -> Edits(UNION {
         Must("a valid edit was refused", e.exc = ""),
         Same("an edit changed other reactions or did not take effect", e.rows, E!Put(cur, e.mt, e.vals), orig),
         Must("the adjusted set is wrong after an edit", ToSet2(e.adj) = adj \cup {e.mt})})
    [] e.ev = "bad" -> Edits(UNION {
         Must("an edit of the wrong length or of an unknown reaction was accepted", e.exc # ""),
         Same("a refused edit changed the table", e.rows, cur, orig),
         Must("a refused edit changed the adjusted set", ToSet2(e.adj) = adj)})
    [] e.ev = "scribble" -> Edits(UNION {
         Same("changing an array that was read changed the table", e.rows, cur, orig),
         Must("reading changed the adjusted set", ToSet2(e.adj) = adj)})
    [] e.ev = "apply" ->
         LET r == E!ApplyRules(orig, cur, adj) IN UNION {
         Rules(UNION {
             Must("applying the sum rules failed", e.exc = ""),
             Must("a sum does not follow its constituents",
                  \A s \in DOMAIN cur \cap E!Sums : s \in DOMAIN Table(e.rows) /\ Table(e.rows)[s] = r[1][s]),
             Must("the sum rules changed a reaction that is no sum",
                  \A s \in DOMAIN cur \ E!Sums : s \in DOMAIN Table(e.rows) /\ Table(e.rows)[s] = cur[s]),
             Must("the unadjusted data changed", OTable(e.rows) = orig)}),
         \* the sums recomputed are adjusted too
         Must("the adjusted set is wrong after the sum rules", ToSet2(e.adj) = r[2]),
         Edits(Must("the unadjusted data changed", OTable(e.rows) = orig))}
    [] e.ev = "other" ->
         LET r == E!ApplyRules(orig, E!Put(orig, e.mt, e.vals), {e.mt}) IN UNION {
         Edits(UNION {Same("another editor's edits changed this one", e.rows, cur, orig),
                Must("another editor's edits changed this one's adjusted set", ToSet2(e.adj) = adj)}),
         Rules(Same("a sum does not follow its constituents (second editor)", e.rows2, r[1], orig))}
    [] e.ev = "read" ->
         LET t == IF e.unadj THEN orig ELSE cur IN Edits(UNION {
         Must("reading failed", e.exc = ""),
         Must("an interpolated read is wrong",
              e.exc # "" \/ e.out = [i \in DOMAIN e.pos |-> E!AtHalf(t, e.mt, e.pos[i])])})
    [] e.ev = "readbad" -> Edits(Must("a reaction that is not on the file was read", e.exc # ""))
    [] e.ev = "temp" -> Edits(Must("a temperature was accepted or refused wrongly", (e.exc = "") = (e.asked = e.file)))
    \* one reaction of a file with the given reactions is changed by d (on its grid
    \* points), then the rules are applied; changed lists all reactions that differ
    [] e.ev = "leaf" ->
         LET present == ToSet2(e.present)
             reach == {s \in present \cap E!Sums : e.mt \in E!BelowTab[s]}
             want == {e.mt} \cup reach
             got == {e.changed[i].mt : i \in DOMAIN e.changed} IN Rules(UNION {
         Must("applying the sum rules failed", e.exc = ""),
         Must("a sum does not follow a constituent", e.exc # "" \/ want \subseteq got),
         Must("a reaction without an adjusted constituent changed", got \subseteq want),
         Must("a sum changed by another amount than its constituent",
              \A i \in DOMAIN e.changed : e.changed[i].mt \in want => e.changed[i].d = e.d),
         Must("the adjusted set is wrong after the sum rules", e.exc # "" \/ ToSet2(e.adj) = want)})
    [] OTHER -> {"unknown event"}

HasRows(e) == e.ev \in {"load", "set", "bad", "scribble", "apply", "other"} /\ e.rows # <<>>

TraceInit == l = 0 /\ orig = <<>> /\ cur = <<>> /\ adj = {}
TraceNext ==
    /\ l < Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l + 1] IN
       /\ Report(l + 1, Judge(e))
       /\ IF HasRows(e)
          THEN /\ cur' = Table(e.rows) /\ adj' = ToSet2(e.adj)
               /\ orig' = IF e.ev = "load" THEN Table(e.rows) ELSE orig
          ELSE UNCHANGED <<orig, cur, adj>>
TraceSpec == TraceInit /\ [][TraceNext]_<<l, orig, cur, adj>>
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
===============================================================================

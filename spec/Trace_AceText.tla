---------------------------- MODULE Trace_AceText ----------------------------
(* Judges histories of real WriteAce objects: open, replace, write.           *)
EXTENDS Verdict
VARIABLES l, head, toks, pristine
T == INSTANCE AceText WITH Token <- {}, MaxLen <- 0, MaxArr <- 0, MaxOps <- 0,
        base <- <<>>, written <- <<>>, ops <- <<>>

Judge(e) ==
  CASE e.ev = "open" -> Must("a well-formed ACE file was refused", e.exc = "")
    [] e.ev = "replace" ->
         IF T!Accepted(toks, e.arr, e.new)
         THEN Must("an array that is on the file was refused", e.exc = "")
         ELSE Must("an array not on the file, or of another length, was accepted", e.exc # "")
    [] e.ev = "write" -> UNION {
         Must("writing failed", e.exc = ""),
         Must("the header changed", e.exc # "" \/ e.head = head),
         Must("the number of values changed", e.exc # "" \/ Len(e.toks) = Len(toks)),
         Must("a value differs from the base with its arrays replaced", e.exc # "" \/ e.toks = toks),
         Must("the values are not laid out four a line in 20 columns",
              e.exc # "" \/ (e.counts = T!LineCounts(Len(toks)) /\ e.lens = [i \in DOMAIN e.counts |-> 20 * e.counts[i]])),
         Must("writing without replacing does not reproduce the file", e.exc # "" \/ ~pristine \/ e.same),
         Must("the base file was changed", ~e.touched)}
    [] OTHER -> {"unknown event"}

TraceInit == l = 0 /\ head = <<>> /\ toks = <<>> /\ pristine = TRUE
TraceNext ==
    /\ l < Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l + 1] IN
       /\ Report(l + 1, Judge(e))
       /\ CASE e.ev = "open" -> head' = e.head /\ toks' = e.toks /\ pristine' = TRUE
            [] e.ev = "replace" ->
                 /\ toks' = T!Replaced(toks, e.arr, e.new, e.max)
                 /\ pristine' = (pristine /\ toks' = toks) /\ UNCHANGED head
            [] OTHER -> UNCHANGED <<head, toks, pristine>>
TraceSpec == TraceInit /\ [][TraceNext]_<<l, head, toks, pristine>>
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
==============================================================================

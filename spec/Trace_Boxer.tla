----------------------------- MODULE Trace_Boxer -----------------------------
(* Judges the converter and the matrix reader on files of BOXER blocks.       *)
EXTENDS Verdict
VARIABLES l
B == INSTANCE Boxer WITH Sizes <- {}, Vals <- {}, mtx <- 0, sym <- 0, pages <- 0, cell <- 0, pstart <- 0

JudgeBoxer(e) ==
    LET s == B!Serve(e.file, 1, B!Chain(e.mat, e.mt), <<>>) IN
    IF s.err # "" THEN Must("data that is not in the file, malformed or too large was returned as numbers", e.failed)
    ELSE IF Len(s.out[4]) # Len(s.out[2]) \/ Len(s.out[2]) # Len(s.out[3]) THEN Must("blocks of different sizes were returned as one reaction", e.failed)
    ELSE IF e.failed THEN {"well-formed data was refused"}
    ELSE UNION {
        Must("the group bounds are not those of the file", e.bounds = B!Vector(s.out[1])),
        Must("the cross sections are not those of the file", e.xsec = B!Vector(s.out[2])),
        Must("the deviations are not relative deviation times cross section",
             e.sd = [i \in DOMAIN e.sd |-> B!Vector(s.out[2])[i] * B!Vector(s.out[3])[i]] /\ Len(e.sd) = Len(s.out[3])),
        Must("the covariance matrix is not the one encoded", e.cov = B!Reversed(s.out[4]))}

Flat(c) == FlattenSeq(B!Reversed(c))
JudgeDirect(e) ==
    LET s == B!Serve(e.file, 1, e.reqs, <<>>) IN UNION {
    Must("a request that cannot be served was not reported as an error", s.err = "" \/ e.err),
    Must("an error was reported for data that is there", s.err # "" \/ ~e.err),
    Must("the blocks written are not the requested ones", e.err # (s.err # "") \/
        [i \in DOMAIN e.got |-> e.got[i].rows] = [i \in DOMAIN s.out |-> Flat(s.out[i])])}

\* pages past the first are headers of their own in the table of contents
RECURSIVE Toc(_, _)
Toc(file, k) == IF k > Len(file) THEN <<>>
    ELSE LET b == file[k] IN [p \in DOMAIN b.pages |-> <<b.type, b.mat, b.mt, b.mat1, b.mt1>>] \o Toc(file, k + 1)
AllFit(file) == \A k \in DOMAIN file : \A p \in DOMAIN file[k].pages : ~B!PageTooBig(file[k].pages[p])
JudgeToc(e) == Must("the table of contents does not list the blocks", ~AllFit(e.file) \/
    (e.rc = 0 /\ SubSeq(e.toc, 1, Len(e.toc) - 1) = Toc(e.file, 1)))

Judge(e) == CASE e.ev = "boxer" -> JudgeBoxer(e)
              [] e.ev = "direct" -> JudgeDirect(e)
              [] e.ev = "toc" -> JudgeToc(e)
              [] OTHER -> {"unknown event"}

TraceInit == l = 0
TraceNext == l < Len(Trace) /\ l' = l + 1 /\ Report(l + 1, Judge(Trace[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
==============================================================================

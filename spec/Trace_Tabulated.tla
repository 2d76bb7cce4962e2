--------------------------- MODULE Trace_Tabulated ---------------------------
(* Judges recorded evaluations and integrals of the real function classes.    *)
EXTENDS Verdict
VARIABLES l
T == INSTANCE Tabulated WITH Exps <- {}, YExps <- {}, MinPoints <- 0, MaxPoints <- 0, Laws <- {}, tb <- 0, pos <- 0, acc <- 0

\* out[i]: value in millionths, lout[i]: its base-2 logarithm in millionths
ValueOk(t, p, out, lout) ==
    ~T!Exact(t, p) \/ IF T!Logarithmic(t, p) THEN Near(lout, T!Value(t, p), 40) ELSE Near(out, T!Value(t, p), 40)
JudgeEval(e) == UNION {
    Must("an evaluation raised", e.exc = ""),
    Must("the result is not parallel to the points", e.exc # "" \/ Len(e.out) = Len(e.pts)),
    Must("a value outside the table's range is not zero", e.exc # "" \/ Len(e.out) # Len(e.pts) \/
        \A i \in DOMAIN e.pts : ~T!Outside(e.t, e.pts[i]) \/ e.out[i] = 0),
    Must("the value at a tabulated point is not the tabulated one", e.exc # "" \/ Len(e.out) # Len(e.pts) \/
        \A i \in DOMAIN e.pts : ~T!OnPoint(e.t, e.pts[i]) \/ ValueOk(e.t, e.pts[i], e.out[i], e.lout[i])),
    Must("a value between points is not what the region's law gives", e.exc # "" \/ Len(e.out) # Len(e.pts) \/
        \A i \in DOMAIN e.pts : T!Outside(e.t, e.pts[i]) \/ T!OnPoint(e.t, e.pts[i]) \/ ValueOk(e.t, e.pts[i], e.out[i], e.lout[i])),
    Must("evaluating changed the table or the caller's points", ~e.mutated)}

RECURSIVE Cum(_, _)
Cum(t, i) == IF i = 1 THEN 0 ELSE Cum(t, i - 1) + T!Piece(t, i - 1)
JudgeInt(e) == UNION {
    Must("an integral raised", e.exc = ""),
    Must("the running integral is not the exact one", e.exc # "" \/
        (Len(e.out) = T!N(e.t) /\ \A i \in 1..T!N(e.t) : Near(e.out[i], Cum(e.t, i), 800)))}

\* value of a part of a combination at integer points (linear tables and polynomials), in millionths
Part(f, p) == IF f.k = "poly" THEN T!Poly(f.c, p.v) * T!M ELSE T!Value(f.t, p)
Op(o, a, b) == CASE o = "add" -> a + b [] o = "subtract" -> a - b [] o = "multiply" -> ((a \div 1000) * (b \div 1000))
                 [] o = "maximum" -> Max2(a, b) [] OTHER -> Min2(a, b)
RECURSIVE Fold(_, _, _, _)
Fold(fs, ops, p, i) == IF i = 1 THEN Part(fs[1], p) ELSE Op(ops[i - 1], Fold(fs, ops, p, i - 1), Part(fs[i], p))
JudgeComb(e) == UNION {
    Must("a combination raised", e.exc = ""),
    Must("a combination is not its parts combined pointwise", e.exc # "" \/ (Len(e.out) = Len(e.pts) /\
        \A i \in DOMAIN e.pts : Near(e.out[i], Fold(e.fs, e.ops, e.pts[i], Len(e.fs)), IF "multiply" \in {e.ops[j] : j \in DOMAIN e.ops} THEN 60000 ELSE 200)))}
Mixed(e) == \E i \in DOMAIN e.fs : e.fs[i].k = "tab" /\ \E j \in DOMAIN e.fs[i].t.law : e.fs[i].t.law[j] # 2
JudgeSumF(e) == IF Mixed(e) THEN Must("tables that are not linear were added", e.exc # "") ELSE UNION {
    Must("functions that can be added were refused", e.exc = ""),
    Must("an added function is not the sum of its parts", e.exc # "" \/ (Len(e.out) = Len(e.pts) /\
        \A i \in DOMAIN e.pts : Near(e.out[i], Fold(e.fs, [j \in 1..Len(e.fs) |-> "add"], e.pts[i], Len(e.fs)), 200)))}
\* piecewise: function number = 1 + number of limits below the point (never on a limit)
JudgePiece(e) == UNION {
    Must("a piecewise function raised", e.exc = ""),
    Must("a piecewise function did not use the function of the point's interval", e.exc # "" \/ (Len(e.out) = Len(e.pts) /\
        \A i \in DOMAIN e.pts : Near(e.out[i], Part(e.fs[1 + Cardinality({j \in DOMAIN e.limits : e.limits[j] < e.pts[i].v})], e.pts[i]), 200)))}

Judge(e) == CASE e.ev = "eval" -> JudgeEval(e)
              [] e.ev = "int" -> JudgeInt(e)
              [] e.ev = "comb" -> JudgeComb(e)
              [] e.ev = "sumf" -> JudgeSumF(e)
              [] e.ev = "piece" -> JudgePiece(e)
              [] OTHER -> {"unknown event"}

TraceInit == l = 0
TraceNext == l < Len(Trace) /\ l' = l + 1 /\ Report(l + 1, Judge(Trace[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceDone == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
==============================================================================

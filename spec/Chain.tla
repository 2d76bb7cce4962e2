--------------------------------- MODULE Chain ---------------------------------
(* The covariance chain: the evaluation is copied to the work folder, the        *)
(* processing code runs once and leaves a listing and tapes, and for each         *)
(* covariance tape and reaction the converter turns the tape into a matrix file   *)
(* that is moved to its name.  Any program may fail in any way, the chain may be   *)
(* killed while a program runs, and the work folder may be the output folder,      *)
(* where earlier runs left their files.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Requests,       \* what a run may be asked for: [tapes, mts, temp]
          MaxRuns,
          AnyOrder,       \* tapes and reactions may be converted in any order
          Clears          \* the outputs a program is going to write are removed before it runs
VARIABLES fs,             \* <<folder, file>> -> contents
          run, req, plan, pc, todo, at, hist
cvars == <<fs, run, req, plan, pc, todo, at, hist>>

\* ---- contents: what was made in which run ------------------------------------
Evaluation(r) == <<"endf", r>>
Listing(r) == <<"listing", r>>
Tape(r, t) == <<"tape", r, t>>
Converter(m) == IF m = 1018 THEN 18 ELSE m      \* the spectrum is converted as reaction 18
Matrix(c, m) == <<"matrix", c, Converter(m)>>
Partial == <<"partial">>

\* ---- names ---------------------------------------------------------------------
TapeFile(t) == <<"t", t>>
TapeName(t) == <<"covr", t>>
MatrixName(t, m) == <<"covr", t, m>>

\* ---- faults -------------------------------------------------------------------
\* k: what goes wrong; t, m: at which tape and reaction
NoFault == [k |-> "ok", t |-> 0, m |-> 0]
Faults(q) == {NoFault}
    \cup {[k |-> x, t |-> 0, m |-> 0] : x \in {"nexit", "nnone", "nlist", "nkill"}}
    \cup {[k |-> "nlost", t |-> t, m |-> 0] : t \in q.tapes}
    \cup {[k |-> x, t |-> t, m |-> m] : x \in {"bexit", "bnone", "bpart", "bkill"}, t \in q.tapes, m \in q.mts}
\* a fault that takes effect: without reactions nothing is converted, so a lost tape is not missed
Hurts(q, f) == f.k # "ok" /\ ~(f.k = "nlost" /\ q.mts = {})

W == IF req.temp THEN "tmp" ELSE "out"
Put(k, v) == (k :> v) @@ fs
PutAll(F, S, val(_)) == [k \in DOMAIN F \cup S |-> IF k \in S THEN val(k) ELSE F[k]]
Drop(F, S) == [k \in DOMAIN F \ S |-> F[k]]
Fort21 == <<W, <<"fort21">>>>
Fort20 == <<W, <<"fort20">>>>
Output == <<W, <<"output">>>>
Pairs(q) == {<<t, m>> : t \in q.tapes, m \in q.mts}

Init == /\ fs = <<>> /\ run = 0 /\ pc = "idle" /\ hist = <<>>
        /\ req = [tapes |-> {}, mts |-> {}, temp |-> TRUE] /\ plan = NoFault /\ todo = {} /\ at = <<0, 0>>

Start == /\ pc \in {"idle", "done", "error", "dead"} /\ run < MaxRuns
         /\ \E q \in Requests : \E f \in Faults(q) :
              /\ req' = q /\ plan' = f /\ todo' = Pairs(q)
              /\ hist' = Append(hist, [q |-> q, f |-> f])
              /\ fs' = LET F == Drop(fs, {k \in DOMAIN fs : k[1] = "tmp"})      \* a fresh temporary folder
                           w == IF q.temp THEN "tmp" ELSE "out"
                       IN (<<w, <<"evaluation">>>> :> Evaluation(run + 1)) @@ F
         /\ run' = run + 1 /\ pc' = "njoy" /\ at' = <<0, 0>>

Made(q, f) == IF f.k \in {"nnone", "nexit", "nkill"} THEN {} ELSE q.tapes \ (IF f.k = "nlost" THEN {f.t} ELSE {})
Njoy == /\ pc = "njoy"
        /\ LET F0 == IF Clears THEN Drop(fs, {<<W, TapeFile(t)>> : t \in req.tapes} \cup {Output}) ELSE fs
               F1 == PutAll(F0, {<<W, TapeFile(t)>> : t \in Made(req, plan)}, LAMBDA k : Tape(run, k[2][2]))
           IN fs' = IF plan.k \in {"nnone", "nlist"} THEN F1 ELSE (Output :> Listing(run)) @@ F1
        /\ pc' = IF plan.k = "nexit" THEN "error" ELSE IF plan.k = "nkill" THEN "dead" ELSE "save"
        /\ UNCHANGED <<run, req, plan, todo, at, hist>>

Save == /\ pc = "save"
        /\ IF Output \notin DOMAIN fs THEN fs' = fs /\ pc' = "error"
           ELSE /\ fs' = LET have == {t \in req.tapes : <<W, TapeFile(t)>> \in DOMAIN fs}
                         IN (<<"out", <<"njoy_output">>>> :> fs[Output]) @@
                            PutAll(fs, {<<"out", TapeName(t)>> : t \in have}, LAMBDA k : fs[<<W, TapeFile(k[2][2])>>])
                /\ pc' = "convert"
        /\ UNCHANGED <<run, req, plan, todo, at, hist>>

\* the converter's turn for one pair
Convert == /\ pc = "convert" /\ todo # {}
           /\ \E p \in (IF AnyOrder THEN todo ELSE {CHOOSE x \in todo : \A y \in todo : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])}) :
                /\ at' = p /\ todo' = todo \ {p}
                /\ IF <<W, TapeFile(p[1])>> \notin DOMAIN fs THEN fs' = fs /\ pc' = "error"
                   ELSE /\ fs' = (Fort20 :> fs[<<W, TapeFile(p[1])>>]) @@ (IF Clears THEN Drop(fs, {Fort21}) ELSE fs)
                        /\ pc' = "boxer"
           /\ UNCHANGED <<run, req, plan, hist>>
Hit == plan.t = at[1] /\ plan.m = at[2]
Boxer == /\ pc = "boxer"
         /\ LET k == IF Hit THEN plan.k ELSE "ok" IN
            /\ fs' = CASE k \in {"bnone", "bexit"} -> fs
                       [] k \in {"bpart", "bkill"} -> Put(Fort21, Partial)
                       [] OTHER -> Put(Fort21, Matrix(fs[Fort20], at[2]))
            /\ pc' = CASE k \in {"bexit", "bpart"} -> "error" [] k = "bkill" -> "dead" [] OTHER -> "move"
         /\ UNCHANGED <<run, req, plan, todo, at, hist>>
Move == /\ pc = "move"
        /\ IF Fort21 \notin DOMAIN fs THEN fs' = fs /\ pc' = "error"
           ELSE /\ fs' = Drop((<<"out", MatrixName(at[1], at[2])>> :> fs[Fort21]) @@ fs, {Fort21})
                /\ pc' = "convert"
        /\ UNCHANGED <<run, req, plan, todo, at, hist>>
Finish == /\ pc = "convert" /\ todo = {} /\ pc' = "done"
          /\ UNCHANGED <<fs, run, req, plan, todo, at, hist>>
Next == Start \/ Njoy \/ Save \/ Convert \/ Boxer \/ Move \/ Finish
Spec == Init /\ [][Next]_cvars

\* ---- what must hold -------------------------------------------------------------
Out == {k \in DOMAIN fs : k[1] = "out"}
\* a matrix file holds its own tape and reaction, of some run
OwnStep == \A k \in Out : Len(k[2]) = 3 /\ k[2][1] = "covr" =>
    \E r \in 1..run : fs[k] = Matrix(Tape(r, k[2][2]), k[2][3])
TapesOwn == \A k \in Out : Len(k[2]) = 2 /\ k[2][1] = "covr" => \E r \in 1..run : fs[k] = Tape(r, k[2][2])
\* ... and what a run saves, it made itself: never something an earlier run left
Fresh == [][\A k \in DOMAIN fs' : k[1] = "out" /\ k[2][1] \in {"covr", "njoy_output"} /\ (k \notin DOMAIN fs \/ fs'[k] # fs[k])
            => (LET c == fs'[k] IN CASE c[1] = "matrix" -> c[2] = Tape(run, k[2][2]) [] c[1] \in {"tape", "listing"} -> c[2] = run [] OTHER -> FALSE)]_cvars
\* it succeeds exactly if nothing went wrong, and then everything is there, of this run
Loud == pc = "done" => ~Hurts(req, plan)
Delivered == pc = "done" =>
    /\ \A p \in Pairs(req) : LET k == <<"out", MatrixName(p[1], p[2])>> IN k \in DOMAIN fs /\ fs[k] = Matrix(Tape(run, p[1]), p[2])
    /\ <<"out", <<"njoy_output">>>> \in DOMAIN fs /\ fs[<<"out", <<"njoy_output">>>>] = Listing(run)
    /\ \A t \in req.tapes : plan.k = "nlost" \/ fs[<<"out", TapeName(t)>>] = Tape(run, t)
\* nothing of the work is left in the output folder if the work was done elsewhere in every run
Tidy == (\A i \in 1..Len(hist) : hist[i].q.temp) => \A k \in Out : k[2][1] \in {"covr", "njoy_output"}
=================================================================================

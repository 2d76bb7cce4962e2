--------------------------------- MODULE Boxer ---------------------------------
(* The BOXER format: vectors and matrices as runs, on one or several pages,     *)
(* and the converter that serves requests from a file of such blocks.           *)
(* A block is [type, mat, mt, mat1, mt1, nrow, ncol, pages]; ncol = 0 says the  *)
(* matrix is symmetric and only its upper triangle is given, row by row.        *)
(* A page is [v, c]: each control n < 0 loads the next value -n times, n > 0    *)
(* copies n elements from the row above (zero on the first row of the page).    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

MaxGroups == 800
MaxValues == 1880
MaxControls == 1900

Cols(b) == IF b.ncol = 0 THEN b.nrow ELSE b.ncol
Sym(b) == b.ncol = 0

\* loading one element: [c, i, j, start, nx, err]
Load(b, s, neg, v) ==
    LET newrow == s.j + 1 > Cols(b)
        i == IF newrow THEN s.i + 1 ELSE s.i
        j == IF ~newrow THEN s.j + 1 ELSE IF Sym(b) THEN i ELSE 1 IN
    IF s.err # "" THEN s
    ELSE IF i > b.nrow THEN [s EXCEPT !.err = "too many elements"]
    ELSE LET x == IF neg THEN v ELSE IF i > s.start THEN s.c[i - 1][j] ELSE 0
             c1 == [s.c EXCEPT ![i][j] = x]
             twice == Sym(b) /\ i # j IN
         [s EXCEPT !.c = IF twice THEN [c1 EXCEPT ![j][i] = x] ELSE c1,
                   !.i = i, !.j = j, !.nx = s.nx + (IF twice THEN 2 ELSE 1)]

RECURSIVE LoadRun(_, _, _, _, _)
LoadRun(b, s, n, neg, v) == IF n = 0 \/ s.err # "" THEN s ELSE LoadRun(b, Load(b, s, neg, v), n - 1, neg, v)

\* one page from its first control on; iv counts the values used
RECURSIVE LoadPage(_, _, _, _, _)
LoadPage(b, s, p, ic, iv) ==
    IF s.err # "" \/ ic > Len(p.c) THEN s
    ELSE IF p.c[ic] = 0 THEN [s EXCEPT !.err = "zero control"]
    ELSE IF p.c[ic] > 0 THEN LoadPage(b, LoadRun(b, s, p.c[ic], FALSE, 0), p, ic + 1, iv)
    ELSE IF iv + 1 > Len(p.v) THEN [s EXCEPT !.err = "values missing"]
    ELSE LoadPage(b, LoadRun(b, s, -p.c[ic], TRUE, p.v[iv + 1]), p, ic + 1, iv + 1)

PageTooBig(p) == Len(p.v) > MaxValues \/ Len(p.c) > MaxControls
TooBig(b) == b.nrow > MaxGroups \/ b.ncol > MaxGroups
\* a block whose header counts more values than it brings ("claims" them)
RECURSIVE LoadPages(_, _, _)
LoadPages(b, s, k) ==
    IF s.err # "" THEN s
    ELSE IF PageTooBig(b.pages[k]) THEN [s EXCEPT !.err = "page too big"]
    ELSE LET t == LoadPage(b, [s EXCEPT !.start = IF k = 1 THEN 1 ELSE s.i + 1], b.pages[k], 1, 0) IN
         IF k = Len(b.pages) THEN t
         ELSE IF t.err = "" /\ t.j # Cols(b) THEN [t EXCEPT !.err = "page ends inside a row"]
         ELSE LoadPages(b, t, k + 1)

Blank(b) == [i \in 1..b.nrow |-> [j \in 1..Cols(b) |-> 0]]
Decode(b) ==
    IF TooBig(b) THEN [c |-> <<>>, err |-> "too many groups"]
    ELSE LET s == LoadPages(b, [c |-> Blank(b), i |-> 1, j |-> 0, start |-> 1, nx |-> 0, err |-> ""], 1) IN
         [c |-> s.c, err |-> IF s.err # "" THEN s.err ELSE IF s.nx # b.nrow * Cols(b) THEN "elements missing" ELSE ""]

\* what is printed: from high to low energy
Reversed(c) == [i \in 1..Len(c) |-> [j \in 1..Len(c[1]) |-> c[Len(c) + 1 - i][Len(c[1]) + 1 - j]]]
Vector(c) == [i \in 1..Len(c) |-> c[Len(c) + 1 - i][1]]

(***************************************************************************)
(* Requests are served front to back: the file is read once.               *)
(***************************************************************************)
Matches(b, q) == /\ b.type = q.type
                 /\ \/ q.type = 0
                    \/ b.mat = q.mat /\ b.mt = q.mt /\ (q.type \in {1, 2} \/ (b.mat1 = q.mat1 /\ b.mt1 = q.mt1))
\* blocks before the one found are read too: their first page must fit
RECURSIVE Find(_, _, _)
Find(file, k, q) == IF k > Len(file) THEN [ix |-> 0, err |-> "not found"]
                    ELSE IF PageTooBig(file[k].pages[1]) THEN [ix |-> 0, err |-> "page too big"]
                    ELSE IF Matches(file[k], q) THEN [ix |-> k, err |-> ""]
                    ELSE Find(file, k + 1, q)
RECURSIVE Serve(_, _, _, _)
Serve(file, k, qs, done) ==
    IF qs = <<>> THEN [out |-> done, err |-> ""]
    ELSE LET f == Find(file, k, Head(qs)) IN
         IF f.err # "" THEN [out |-> done, err |-> f.err]
         ELSE LET d == Decode(file[f.ix]) IN
              IF d.err # "" THEN [out |-> done, err |-> d.err]
              ELSE Serve(file, f.ix + 1, Tail(qs), Append(done, d.c))
Chain(mat, mt) == [i \in 1..4 |-> [type |-> i - 1, mat |-> mat, mt |-> mt, mat1 |-> mat, mt1 |-> mt]]

(***************************************************************************)
(* All encodings of all small matrices: the writer chooses runs and pages. *)
(***************************************************************************)
CONSTANTS Sizes, Vals
VARIABLES mtx, sym, pages, cell, pstart
bvars == <<mtx, sym, pages, cell, pstart>>

Symmetric(m) == \A i \in DOMAIN m : \A j \in DOMAIN m[i] : m[i][j] = m[j][i]
Cells(n, s) == SetToSortSeq({<<i, j>> \in (1..n) \X (1..n) : ~s \/ j >= i}, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
BInit == /\ \E n \in Sizes : mtx \in [1..n -> [1..n -> Vals]]
         /\ sym \in BOOLEAN /\ (sym => Symmetric(mtx))
         /\ pages = <<[v |-> <<>>, c |-> <<>>]>> /\ cell = 1 /\ pstart = 1
cs == Cells(Len(mtx), sym)
At(k) == mtx[cs[k][1]][cs[k][2]]
Above(k) == IF cs[k][1] > pstart THEN mtx[cs[k][1] - 1][cs[k][2]] ELSE 0
Top == Len(pages)
Repeat(n) == /\ cell + n - 1 <= Len(cs)
             /\ \A k \in cell..(cell + n - 1) : At(k) = At(cell)
             /\ pages' = [pages EXCEPT ![Top].v = Append(@, At(cell)), ![Top].c = Append(@, -n)]
             /\ cell' = cell + n /\ UNCHANGED <<mtx, sym, pstart>>
Copy(n) == /\ cell + n - 1 <= Len(cs)
           /\ \A k \in cell..(cell + n - 1) : At(k) = Above(k)
           /\ pages' = [pages EXCEPT ![Top].c = Append(@, n)]
           /\ cell' = cell + n /\ UNCHANGED <<mtx, sym, pstart>>
NewPage == /\ cell > 1 /\ cell <= Len(cs) /\ cs[cell][1] > cs[cell - 1][1] /\ pages[Top].c # <<>>
           /\ pages' = Append(pages, [v |-> <<>>, c |-> <<>>])
           /\ pstart' = cs[cell][1] /\ UNCHANGED <<mtx, sym, cell>>
BNext == NewPage \/ \E n \in 1..Len(cs) : Repeat(n) \/ Copy(n)
BSpec == BInit /\ [][BNext]_bvars

Block == [type |-> 3, mat |-> 1, mt |-> 1, mat1 |-> 1, mt1 |-> 1, nrow |-> Len(mtx), ncol |-> IF sym THEN 0 ELSE Len(mtx), pages |-> pages]
Complete == cell > Len(cs)
\* whatever runs and pages the writer chose, decoding gives the matrix back
RoundTrip == Complete => Decode(Block) = [c |-> mtx, err |-> ""]
\* an unfinished encoding is never taken for a matrix
Unfinished == ~Complete => Decode(Block).err # ""
\* high-to-low order is its own inverse and keeps symmetry
ReverseTwice == Complete => Reversed(Reversed(mtx)) = mtx /\ (sym => Symmetric(Reversed(mtx)))
=================================================================================

-------------------------------- MODULE Algebra --------------------------------
(* Exact matrix algebra over integers: conversions between correlations and    *)
(* covariances, definiteness by minors, factorisations and repairs.            *)
EXTENDS Integers, Sequences, FiniteSets

Dim(m) == Len(m)
Symmetric(m) == \A i, j \in 1..Dim(m) : m[i][j] = m[j][i]

\* correlations in 1/c; covariance in the units of std^2 / c
ToCov(std, corr) == [i \in 1..Len(std) |-> [j \in 1..Len(std) |-> corr[i][j] * std[i] * std[j]]]

\* determinant of the submatrix with the index sequence s (Laplace along the first row)
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
RECURSIVE Minor(_, _, _)
Minor(m, rows, cols) ==
    IF rows = <<>> THEN 1 ELSE
    LET RECURSIVE Sum(_)
        Sum(k) == IF k = 0 THEN 0
                  ELSE (IF k % 2 = 1 THEN 1 ELSE -1) * m[rows[1]][cols[k]] * Minor(m, Tail(rows), Without(cols, k)) + Sum(k - 1)
    IN Sum(Len(cols))
Leading(k) == [i \in 1..k |-> i]
PositiveDefinite(m) == \A k \in 1..Dim(m) : Minor(m, Leading(k), Leading(k)) > 0
\* increasing index sequences
Choices(n) == {s \in UNION {[1..k -> 1..n] : k \in 1..n} : \A a, b \in 1..Len(s) : a < b => s[a] < s[b]}
SemiDefinite(m) == \A s \in Choices(Dim(m)) : Minor(m, s, s) >= 0

\* the submatrix of the groups that have data
Sub(m, keep) == [a \in 1..Len(keep) |-> [b \in 1..Len(keep) |-> m[keep[a]][keep[b]]]]
WithData(m) == LET n == Dim(m) IN
    CHOOSE s \in Choices(n) \cup {<<>>} : {s[i] : i \in 1..Len(s)} = {i \in 1..n : m[i][i] > 0}

Quad(m, x) == LET n == Dim(m)
                  RECURSIVE S(_, _)
                  S(i, j) == IF i = 0 THEN 0 ELSE IF j = 0 THEN S(i - 1, n) ELSE m[i][j] * x[i] * x[j] + S(i, j - 1)
              IN S(n, n)

\* a factorisation: perm[i] = row of the one in column i, low = factor (scale f),
\* shift (scale f^2); reconstructed element (i,j) of A in units f^2
Place(perm, i) == CHOOSE k \in 1..Len(perm) : perm[k] = i
Dot(low, a, b) == LET RECURSIVE S(_)
                      S(k) == IF k = 0 THEN 0 ELSE low[a][k] * low[b][k] + S(k - 1)
                  IN S(Len(low))
Rebuilt(perm, low, shift, i, j) ==
    Dot(low, Place(perm, i), Place(perm, j)) - (IF i = j THEN shift[Place(perm, i)] ELSE 0)

(***************************************************************************)
(* All small symmetric matrices, and the lemmas the judgements rest on     *)
(***************************************************************************)
CONSTANTS Size, Diag, Off, Std
VARIABLES mat, kind
avars == <<mat, kind>>
Pairs == {p \in (1..Size) \X (1..Size) : p[1] < p[2]}
Build(d, o) == [i \in 1..Size |-> [j \in 1..Size |-> IF i = j THEN d[i] ELSE IF i < j THEN o[<<i, j>>] ELSE o[<<j, i>>]]]
AInit == /\ mat = <<>> /\ kind = "none"
Choose == /\ kind = "none" /\ kind' = "given"
          /\ \E d \in [1..Size -> Diag], o \in [Pairs -> Off] : mat' = Build(d, o)
ANext == Choose
ASpec == AInit /\ [][ANext]_avars

Vectors == [1..Size -> -2..2]
\* positive definite by minors is positive definite
DefiniteIsPositive == kind = "given" /\ PositiveDefinite(mat) =>
    \A x \in Vectors : (\E i \in 1..Size : x[i] # 0) => Quad(mat, x) > 0
SemiIsNonNegative == kind = "given" /\ SemiDefinite(mat) => \A x \in Vectors : Quad(mat, x) >= 0
DefiniteIsSemi == kind = "given" /\ PositiveDefinite(mat) => SemiDefinite(mat)
\* scaling both sides by positive deviations keeps definiteness, and can be undone
ScalingKeeps == kind = "given" /\ Symmetric(mat) => \A s \in [1..Size -> Std] :
    /\ Symmetric(ToCov(s, mat))
    /\ PositiveDefinite(ToCov(s, mat)) = PositiveDefinite(mat)
    /\ \A i, j \in 1..Size : ToCov(s, mat)[i][j] \div (s[i] * s[j]) = mat[i][j]
================================================================================

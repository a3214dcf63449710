-------------------------------- MODULE Covar --------------------------------
(***************************************************************************)
(* Pixel-to-pixel covariance of an image (property Y05).                   *)
(*                                                                         *)
(* A border b = <<bottom, left, top, right>> is left out of the image, and  *)
(* one more row at the top and column on the right.  Element <<p, q>> of a  *)
(* matrix of size s is then the covariance of the pixels x with the pixels  *)
(* y that are p - mid rows and q - mid columns away, over the pixels x that *)
(* are at least as far from all edges as any element reaches (and one).     *)
(***************************************************************************)
EXTENDS Num, SequencesExt

(* What remains of an image within a border *)
Within(im, b) ==
    [i \in 1..(Len(im) - b[1] - b[3] - 1) |->
        [j \in 1..(Len(im[1]) - b[2] - b[4] - 1) |-> im[b[1] + i][b[2] + j]]]

Middle(s) == <<s[1] \div 2, s[2] \div 2>>
Reach(s) == <<IMax(Middle(s)[1], 1), IMax(Middle(s)[2], 1)>>
(* The pixels x, row by row *)
Interior(A, s) ==
    LET e == Reach(s)
        R == Len(A) - 2 * e[1]
        C == Len(A[1]) - 2 * e[2]
    IN  [k \in 1..(R * C) |-> <<e[1] + 1 + ((k - 1) \div C), e[2] + 1 + ((k - 1) % C)>>]

(* Going through the pixels one by one: number, sums of x, of y, of products *)
Start == [n |-> Zero, x |-> Zero, y |-> Zero, xy |-> Zero]
Take(t, x, y) == [n |-> NAdd(t.n, One), x |-> NAdd(t.x, x), y |-> NAdd(t.y, y), xy |-> NAdd(t.xy, NMul(x, y))]
Cov(t) == NSub(NDiv(t.xy, t.n), NMul(NDiv(t.x, t.n), NDiv(t.y, t.n)))

(* Covariance at an offset of i rows and j columns.  A level L is taken off  *)
(* all pixels first, which changes nothing but the rounding.                *)
Mean(A, P) == NDiv(NSum([k \in 1..Len(P) |-> A[P[k][1]][P[k][2]]]), NInt(Len(P)))
Offset(A, P, i, j) ==
    LET L == Mean(A, P)
        at(r, c) == NSub(A[r][c], L)
    IN  Cov(FoldLeft(LAMBDA t, p : Take(t, at(p[1], p[2]), at(p[1] + i, p[2] + j)), Start, P))
Matrix(A, s) ==
    LET P == Interior(A, s)
        m == Middle(s)
    IN  [p \in 1..s[1] |-> [q \in 1..s[2] |-> Offset(A, P, p - 1 - m[1], q - 1 - m[2])]]
Covariance(im, s, b) == Matrix(Within(im, b), s)

(* Figures of a matrix: sums over the column, row, ring or all of it, but    *)
(* for the variance in the middle; and the same of the absolute values       *)
Size(M) == <<Len(M), Len(M[1])>>
Variance(M) == M[Middle(Size(M))[1] + 1][Middle(Size(M))[2] + 1]
SumOver(M, Q(_, _), f(_)) ==
    NSum([p \in 1..Len(M) |-> NSum([q \in 1..Len(M[1]) |-> IF Q(p, q) THEN f(M[p][q]) ELSE Zero])])
Figure(M, name, f(_)) ==
    LET m == Middle(Size(M))
        dp(p) == IAbs(p - 1 - m[1])
        dq(q) == IAbs(q - 1 - m[2])
        Q(p, q) == /\ ~(dp(p) = 0 /\ dq(q) = 0)
                   /\ CASE name = "column" -> dq(q) = 0
                        [] name = "row" -> dp(p) = 0
                        [] name = "ring" -> dp(p) <= 1 /\ dq(q) <= 1
                        [] name = "box" -> TRUE
    IN  SumOver(M, Q, f)
Plain(M, name) == Figure(M, name, LAMBDA v : v)
Absolute(M, name) == Figure(M, name, NAbs)
Names == {"column", "row", "ring", "box"}

(* The matrix of an image of independent pixels *)
Independent(s) == [p \in 1..s[1] |-> [q \in 1..s[2] |-> IF p = Middle(s)[1] + 1 /\ q = Middle(s)[2] + 1 THEN One ELSE Zero]]

(* The corners of an image, n = <<columns, rows>> in size: those on the       *)
(* right and those on the left, each the lower one first                     *)
Corner(im, n, k) ==
    LET R == Len(im)
        C == Len(im[1])
        r0 == IF k \in {1, 3} THEN 0 ELSE R - n[2] - 1
        c0 == IF k \in {1, 2} THEN C - n[1] - 1 ELSE 0
    IN  [i \in 1..n[2] |-> [j \in 1..n[1] |-> im[r0 + i][c0 + j]]]
=============================================================================

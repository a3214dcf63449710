------------------------------ MODULE MC_Covar -------------------------------
(***************************************************************************)
(* Covariance over exact rationals (property Y05): every image of a few     *)
(* sizes with pixels from a small alphabet, whose interior is gone through  *)
(* pixel by pixel for one offset, and what must hold of the whole matrix.   *)
(* Matrices are printed, to be compared with those of the real code.        *)
(***************************************************************************)
EXTENDS Covar, Json, IOUtils

Conf == JsonDeserialize(IOEnv.CONF)
Shapes == 1..Len(Conf.shapes)          \* [rows, columns, size]
Alphabet == {NInt(Conf.pixels[i]) : i \in 1..Len(Conf.pixels)}

VARIABLES shape, im, off, k, t
vars == <<shape, im, off, k, t>>
S == Conf.shapes[shape].size
Offsets(s) == {<<i, j>> \in (-Middle(s)[1]..Middle(s)[1]) \X (-Middle(s)[2]..Middle(s)[2]) : TRUE}
P == Interior(im, S)

Init ==
    /\ shape \in Shapes
    /\ \E f \in [1..(Conf.shapes[shape].rows * Conf.shapes[shape].columns) -> Alphabet] :
          im = [i \in 1..Conf.shapes[shape].rows |-> [j \in 1..Conf.shapes[shape].columns |->
                    f[(i - 1) * Conf.shapes[shape].columns + j]]]
    /\ off \in Offsets(S)
    /\ k = 0 /\ t = Start
Next ==
    /\ k < Len(P) /\ k' = k + 1
    /\ t' = Take(t, im[P[k'][1]][P[k'][2]], im[P[k'][1] + off[1]][P[k'][2] + off[2]])
    /\ UNCHANGED <<shape, im, off>>
Spec == Init /\ [][Next]_vars

Done == k = Len(P)
M == Matrix(im, S)
At(B, s, i, j) == B[Middle(s)[1] + 1 + i][Middle(s)[2] + 1 + j]
Map(f(_)) == [i \in 1..Len(im) |-> [j \in 1..Len(im[1]) |-> f(im[i][j])]]
Turned == [i \in 1..Len(im) |-> [j \in 1..Len(im[1]) |-> im[Len(im) + 1 - i][Len(im[1]) + 1 - j]]]
Flipped == [j \in 1..Len(im[1]) |-> [i \in 1..Len(im) |-> im[i][j]]]
(* the whole matrix need not be looked at for every offset *)
Whole == Done /\ off = <<0, 0>>

InBounds == \A p \in 1..Len(P) : \A o \in Offsets(S) :
    /\ P[p][1] + o[1] \in 1..Len(im) /\ P[p][2] + o[2] \in 1..Len(im[1])
Streamed == Done => Cov(t) = At(M, S, off[1], off[2])
(* |cov| <= (var x + var y) / 2, at every pixel on the way *)
Spread(o, n) == FoldLeft(LAMBDA a, p : Take(a, im[p[1] + o[1]][p[2] + o[2]], im[p[1] + o[1]][p[2] + o[2]]), Start, SubSeq(P, 1, n))
Bounded == k > 0 => NLeq(NMul(Two, NAbs(Cov(t))), NAdd(Cov(Spread(<<0, 0>>, k)), Cov(Spread(off, k))))
Positive == Whole => NLeq(Zero, Variance(M))
Flat == (Whole /\ \A i \in 1..Len(im), j \in 1..Len(im[1]) : im[i][j] = im[1][1]) =>
    \A p \in 1..S[1], q \in 1..S[2] : NIsZero(M[p][q])
Level == Whole => Matrix(Map(LAMBDA v : NAdd(v, NInt(9))), S) = M
Scale == Whole => Matrix(Map(LAMBDA v : NMul(v, NInt(-3))), S) = [p \in 1..S[1] |-> [q \in 1..S[2] |-> NMul(NInt(9), M[p][q])]]
(* rows and columns are alike; so are both ends *)
Alike == Whole =>
    /\ Matrix(Flipped, <<S[2], S[1]>>) = [q \in 1..S[2] |-> [p \in 1..S[1] |-> M[p][q]]]
    /\ Matrix(Turned, S) = [p \in 1..S[1] |-> [q \in 1..S[2] |-> M[S[1] + 1 - p][S[2] + 1 - q]]]
Figures == Whole =>
    /\ \A n \in Names : NLeq(NAbs(Plain(M, n)), Absolute(M, n)) /\ NLeq(Absolute(M, n), Absolute(M, "box"))
    /\ (S[1] <= 3 /\ S[2] <= 3) => Plain(M, "ring") = Plain(M, "box")
    /\ S[2] = 1 => Plain(M, "column") = Plain(M, "box") /\ NIsZero(Plain(M, "row"))
    /\ S[1] = 1 => Plain(M, "row") = Plain(M, "box") /\ NIsZero(Plain(M, "column"))
(* a border leaves out what it says: the same pixels within anything else *)
Framed ==
    LET R == Len(im) + 4
        C == Len(im[1]) + 6
    IN  [i \in 1..R |-> [j \in 1..C |->
            IF i \in 2..(Len(im) + 1) /\ j \in 4..(Len(im[1]) + 3) THEN im[i - 1][j - 3] ELSE NInt(100 * i + j)]]
Border == Whole => Covariance(Framed, S, <<1, 3, 2, 2>>) = M

Text == FoldLeft(LAMBDA a, row : FoldLeft(LAMBDA b, x : b \o NStr(x) \o " ", a, row), "", M)
Emit == Whole => PrintT(<<"V", ToString(shape), FoldLeft(LAMBDA a, row : FoldLeft(LAMBDA b, x : b \o NStr(x) \o " ", a, row), "", im), Text>>)
=============================================================================

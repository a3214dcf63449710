------------------------------ MODULE TraceRel ------------------------------
(***************************************************************************)
(* Relations between recorded runs of the real code (properties C03-C09,   *)
(* T07, T08, Y01, Y03, Y04): every line of the trace file is a case        *)
(*   [id, rel, in, out, n, m, x, tol]                                      *)
(* with the images that went in and came out of its runs, some integers n  *)
(* and pairs of integers m, numbers x, and a tolerance.  Most of them are   *)
(* consequences of the state machine of module Clock that MC_Clock checks   *)
(* as invariants; here they are asked of the code without going through     *)
(* the numbers of the model, for images as large as one likes, and to the   *)
(* last bit where the property says so.                                     *)
(***************************************************************************)
EXTENDS Num, FiniteSets, SequencesExt, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE line
Init == line \in 1..Len(Lines)
Next == UNCHANGED line
Spec == Init /\ [][Next]_line

X == Lines[line]
In(k) == X.in[k]
Out(k) == X.out[k]
Runs == 1..Len(X.out)
Rows(A) == 1..Len(A)
Cols(A) == IF Len(A) = 0 THEN {} ELSE 1..Len(A[1])
Cells(A) == Rows(A) \X Cols(A)
SameShape(A, B) ==
    /\ Len(A) = Len(B)
    /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i])
Transpose(A) == [j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]]
Sum(A) == NSum([i \in 1..Len(A) |-> NSum(A[i])])
Column(A, j) == [i \in 1..Len(A) |-> A[i][j]]
Equal(x, y) == NClose(x, y, X.tol, NMul(X.tol, X.scale))
EqualImages(A, B) == SameShape(A, B) /\ \A i \in Rows(A), j \in Cols(A) : Equal(A[i][j], B[i][j])
Identical(A, B) == SameShape(A, B) /\ \A i \in Rows(A), j \in Cols(A) : NSame(A[i][j], B[i][j])
Clamp0(x) == IF NLt(x, Zero) THEN Zero ELSE x
Largest(A) == FoldLeft(LAMBDA a, r : FoldLeft(LAMBDA b, x : NMax(b, NAbs(x)), a, r), Zero, A)
Minus(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> NSub(A[i][j], B[i][j])]]
ToSet2(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}

Holds ==
    CASE X.rel = "same" ->         \* all runs give the same bits
            \A k \in Runs : Identical(Out(1), Out(k))
      [] X.rel = "close" ->        \* all runs agree
            \A k \in Runs : EqualImages(Out(1), Out(k))
      [] X.rel = "within" ->       \* all runs agree up to x[1] in every pixel
            \A k \in Runs : /\ SameShape(Out(1), Out(k))
                            /\ \A i \in Rows(Out(1)), j \in Cols(Out(1)) :
                                   NLeq(NAbs(NSub(Out(1)[i][j], Out(k)[i][j])), X.x[1])
      [] X.rel = "columns" ->      \* column a of run 1 is column b of run 2, to the last bit
            \A p \in ToSet2(X.m) : Column(Out(1), p[1] + 1) = Column(Out(2), p[2] + 1)
      [] X.rel = "lines" ->        \* the same of rows
            \A p \in ToSet2(X.m) : Out(1)[p[1] + 1] = Out(2)[p[2] + 1]
      [] X.rel = "rows" ->
            \A p \in ToSet2(X.m) : \A j \in Cols(Out(1)) : Equal(Out(1)[p[1] + 1][j], Out(2)[p[2] + 1][j])
      [] X.rel = "outside" ->      \* nothing changes outside rows n[1]..n[2]-1 and columns n[3]..n[4]-1
            /\ SameShape(Out(1), In(1))
            /\ \A i \in Rows(In(1)), j \in Cols(In(1)) :
                  (i - 1 < X.n[1] \/ i - 1 >= X.n[2] \/ j - 1 < X.n[3] \/ j - 1 >= X.n[4])
                     => NEq(Out(1)[i][j], In(1)[i][j])
      [] X.rel = "transposed" ->   \* run 2 is the transpose of run 1
            EqualImages(Out(2), Transpose(Out(1)))
      [] X.rel = "staged" ->       \* run 2 is the transpose of run 3
            EqualImages(Out(3), Transpose(Out(2)))
      [] X.rel = "alone" ->        \* the run gives the very bits of in1
            Identical(Out(1), In(1))
      [] X.rel = "total" ->        \* each run keeps the total charge
            \A k \in Runs : Equal(Sum(Out(k)), Sum(In(k)))
      [] X.rel = "nonnegative" ->
            \A k \in Runs : \A i \in Rows(Out(k)), j \in Cols(Out(k)) : NLeq(Zero, Out(k)[i][j])
      [] X.rel = "finite" ->
            \A k \in Runs : /\ SameShape(Out(k), In(1))
                            /\ \A i \in Rows(Out(k)), j \in Cols(Out(k)) : NFinite(Out(k)[i][j])
      [] X.rel = "iterates" ->     \* In(1) corrected by k iterations is Out(k); Out(n[1] + k) is its trailed image,
                                   \* Out(n[1] + 1 + k) that of Out(k); n[2]: negative pixels allowed
            LET N == X.n[1]
                Est(k) == IF k = 0 THEN In(1) ELSE Out(k)
                Trailed(k) == Out(N + 1 + k)
            IN  \A k \in 0..(N - 1) :
                   /\ SameShape(Out(k + 1), In(1))
                   /\ \A i \in Rows(In(1)), j \in Cols(In(1)) :
                         LET e == NAdd(Est(k)[i][j], NSub(In(1)[i][j], Trailed(k)[i][j]))
                         IN  Equal(Out(k + 1)[i][j], IF X.n[2] = 1 THEN e ELSE Clamp0(e))
      [] X.rel = "shrinks" ->      \* the residuals of the iterates shrink by the factor x[1] each, down to rounding
            LET N == X.n[1]
                Residual(k) == Largest(Minus(In(1), Out(N + 1 + k)))
            IN  \A k \in 0..(N - 1) :
                   NLeq(Residual(k + 1), NAdd(NMul(X.x[1], Residual(k)), NMul(X.tol, X.scale)))
      [] X.rel = "expected" ->     \* each run gives what was expected of it
            \A k \in Runs : EqualImages(Out(k), In(k))
      [] X.rel = "split" ->        \* parts add up to the whole
            EqualImages([i \in 1..Len(In(1)) |-> [j \in 1..Len(In(1)[1]) |-> NAdd(Out(1)[i][j], Out(2)[i][j])]], In(1))
      [] X.rel = "linear" ->       \* out3 - out0 = x1 (out1 - out0) + x2 (out2 - out0); out4 is the run of nothing
            \A i \in Rows(Out(1)), j \in Cols(Out(1)) :
                Equal(NSub(Out(3)[i][j], Out(4)[i][j]),
                      NAdd(NMul(X.x[1], NSub(Out(1)[i][j], Out(4)[i][j])),
                           NMul(X.x[2], NSub(Out(2)[i][j], Out(4)[i][j]))))
      [] X.rel = "prefix" ->       \* the first n[1] columns agree
            \A i \in Rows(Out(1)), j \in 1..X.n[1] : Equal(Out(1)[i][j], Out(2)[i][j])
      [] X.rel = "differ" ->       \* the runs do differ: the case is not vacuous
            \A k \in Runs \ {1} : ~EqualImages(Out(1), Out(k))

Judge == PrintT(<<"V", X.id, IF Holds THEN "accept" ELSE "reject relation " \o X.rel>>)
=============================================================================

----------------------------- MODULE TraceCovar ------------------------------
(***************************************************************************)
(* Recorded covariance matrices of the Python package (property Y05):       *)
(* "image" (of an image within a border), "corners" (of the corners of an   *)
(* image), "values" (a matrix that was given), "default"; each with the     *)
(* figures that were read from it.                                          *)
(***************************************************************************)
EXTENDS Covar, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE line
Init == line \in 1..Len(Lines)
Next == UNCHANGED line
Spec == Init /\ [][Next]_line
X == Lines[line]

Standard == <<5, 5, 0, 0>>
Wanted ==
    CASE X.what = "image" -> <<Covariance(X.image, X.size, X.border)>>
      [] X.what = "corners" -> [k \in 1..4 |-> Covariance(Corner(X.image, X.n, k), X.size, Standard)]
      [] X.what = "values" -> <<X.image>>
      [] X.what = "default" -> <<Independent(X.size)>>
Near(x, y) == NClose(x, y, X.rel, X.abs)
Shape(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i])
BadValues(w, out) ==
    {<<k, p, q>> \in (1..Len(w)) \X (1..Len(w[1])) \X (1..Len(w[1][1])) : ~Near(out[k].m[p][q], w[k][p][q])}
(* figures are of the matrix as it came out *)
BadFigures(out) ==
    {<<k, name>> \in (1..Len(out)) \X Names :
        ~(Near(out[k].f[name], Plain(out[k].m, name)) /\ Near(out[k].f[name \o "abs"], Absolute(out[k].m, name)))}
    \cup {<<k, "variance">> : k \in {k \in 1..Len(out) : ~NSame(out[k].f.variance, Variance(out[k].m))}}
    \cup {<<k, "middle">> : k \in {k \in 1..Len(out) : out[k].middle # Middle(Size(out[k].m))}}
Verdict ==
    LET w == Wanted
        out == X.out
    IN  IF Len(out) # Len(w) \/ \E k \in 1..Len(w) : ~Shape(out[k].m, w[k]) THEN "reject shape"
        ELSE IF X.kept = 0 THEN "reject the image was changed"
        ELSE LET v == BadValues(w, out)
                 f == BadFigures(out)
             IN  IF v # {} THEN LET p == CHOOSE p \in v : TRUE
                                IN  "reject element " \o ToString(p) \o " model " \o NStr(w[p[1]][p[2]][p[3]])
                                    \o " code " \o NStr(out[p[1]].m[p[2]][p[3]])
                 ELSE IF f # {} THEN "reject figures " \o ToString(f)
                 ELSE "accept"
Judge == PrintT(<<"V", X.id, Verdict>>)
=============================================================================

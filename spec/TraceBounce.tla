----------------------------- MODULE TraceBounce -----------------------------
(***************************************************************************)
(* Recorded calls of the pixel bounce of the Python package (property Y03): *)
(* each line has an image, oscillators (as the arguments that made them), a *)
(* window, what was done - "bias", "add" or "remove" by some iterations -   *)
(* and the image that came out.                                            *)
(***************************************************************************)
EXTENDS Bounce, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE line
Init == line \in 1..Len(Lines)
Next == UNCHANGED line
Spec == Init /\ [][Next]_line
X == Lines[line]

Os == [k \in 1..Len(X.osc) |-> Oscillator(X.osc[k])]
Wanted ==
    CASE X.what = "bias" -> ImageBias(Os, X.image, X.window)
      [] X.what = "add" -> Bounced(Os, X.image, X.window)
      [] X.what = "remove" -> Unbounced(Os, X.image, X.window, X.iters)
Mismatch ==
    LET w == Wanted
    IN  {<<i, j>> \in (1..Len(X.image)) \X (1..Len(X.image[1])) : ~NClose(X.out[i][j], w[i][j], X.rel, X.abs)}
Shape == Len(X.out) = Len(X.image) /\ \A i \in 1..Len(X.image) : Len(X.out[i]) = Len(X.image[i])
Verdict ==
    IF ~Shape THEN "reject shape"
    ELSE IF X.kept = 0 THEN "reject the arguments were changed"
    ELSE IF Mismatch = {} THEN "accept"
    ELSE LET p == CHOOSE x \in Mismatch : TRUE
         IN  "reject pixel " \o ToString(p) \o " model " \o NStr(Wanted[p[1]][p[2]]) \o " code " \o NStr(X.out[p[1]][p[2]])
Judge == PrintT(<<"V", X.id, Verdict>>)
=============================================================================

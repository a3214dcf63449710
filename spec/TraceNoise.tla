----------------------------- MODULE TraceNoise ------------------------------
(***************************************************************************)
(* Recorded noise models (property Y04): each line of the trace file has an *)
(* image, its smooth part, the settings, and the model of noise that came   *)
(* out of the real code.                                                   *)
(***************************************************************************)
EXTENDS Noise, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE line
Init == line \in 1..Len(Lines)
Next == UNCHANGED line
Spec == Init /\ [][Next]_line
X == Lines[line]
Wanted == NoiseModel(X.image, X.smooth, X.amp, X.frac, X.cols)
Shape == Len(X.out) = Len(X.image) /\ \A i \in 1..Len(X.image) : Len(X.out[i]) = Len(X.image[i])
Verdict ==
    IF ~Shape THEN "reject shape"
    ELSE IF X.kept = 0 THEN "reject the arguments were changed"
    ELSE LET w == Wanted
             bad == {<<i, j>> \in (1..Len(X.image)) \X (1..Len(X.image[1])) : ~NClose(X.out[i][j], w[i][j], X.rel, X.abs)}
         IN  IF bad = {} THEN "accept"
             ELSE LET p == CHOOSE x \in bad : TRUE
                  IN  "reject pixel " \o ToString(p) \o " model " \o NStr(w[p[1]][p[2]]) \o " code " \o NStr(X.out[p[1]][p[2]])
Judge == PrintT(<<"V", X.id, Verdict>>)
=============================================================================

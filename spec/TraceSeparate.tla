--------------------------- MODULE TraceSeparate ----------------------------
(***************************************************************************)
(* Recorded separations into smooth part and read noise (property Y04),     *)
(* compared with the state machine Separate.                               *)
(***************************************************************************)
EXTENDS Separate, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
TNJobs == Len(Lines)
TJob(c) == Lines[c]
X == Lines[job]
Ok(A, B) == \A p \in Shape : NClose(A[p[1]][p[2]], B[p[1]][p[2]], X.rel, X.abs)
ShapeOK(A) == Len(A) = Len(J.image) /\ \A i \in 1..Len(A) : Len(A[i]) = Len(J.image[1])
(* to the last bits whatever the noise was taken to be *)
Parts == \A p \in Shape : NClose(NAdd(X.S[p[1]][p[2]], X.R[p[1]][p[2]]), J.image[p[1]][p[2]], X.fine, X.fine)
Verdict ==
    IF ~ShapeOK(X.S) \/ ~ShapeOK(X.R) THEN "reject shape"
    ELSE IF X.kept = 0 THEN "reject the arguments were changed"
    ELSE IF ~Parts THEN "reject the parts do not add up to the image"
    ELSE IF Ok(X.S, Smooth) /\ Ok(X.R, Noisy) THEN "accept"
    ELSE IF close THEN "skip"
    ELSE "reject separation after " \o ToString(k) \o " iterations"
Judge == Stop => PrintT(<<"V", X.id, Verdict>>)
=============================================================================

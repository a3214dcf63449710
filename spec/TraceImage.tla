----------------------------- MODULE TraceImage -----------------------------
(***************************************************************************)
(* Conformance of recorded runs of the real code: every line of the trace  *)
(* file is a call (the arguments of add_cti, remove_cti or                 *)
(* clock_charge_in_one_direction, or those of a call of the Python package  *)
(* - see Wrapper) with the image it returned.  The state                    *)
(* machine runs each call and compares its output with the recorded one.   *)
(***************************************************************************)
EXTENDS Wrapper, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
Derived == TLCEval([c \in 1..Len(Lines) |-> MakeJob(IF "given" \in DOMAIN Lines[c] THEN FromPython(Lines[c]) ELSE Lines[c])])
TNJobs == Len(Lines)
TJob(c) == Derived[c]

(* Relative to the largest pixel of the image, and absolute *)
Rel == Lines[job].rel
AbsTol == Lines[job].abs

Dubious == near \/ \E k \in 1..2 : Dir(k).on /\ Dir(k).dusty
Mismatch ==
    LET o == Lines[job].out
    IN  {<<i, j>> \in (1..Rows(J.image)) \X (1..Cols(J.image)) :
            ~NClose(o[i][j], Output[i][j], Rel, AbsTol)}
Shape == Len(Lines[job].out) = Rows(J.image) /\ \A i \in 1..Rows(J.image) : Len(Lines[job].out[i]) = Cols(J.image)
(* C02: the totals alone *)
OutSum == ImageSum(Lines[job].out)
Biggest == NAdd(NMul(NInt(Rows(J.image) * Cols(J.image)), AbsTol), NMul(Rel, NSum([i \in 1..Rows(J.image) |->
              NSum([j \in 1..Cols(J.image) |-> NAbs(J.image[i][j])])])))
TotalOK == NClose(OutSum, ImageSum(Output), Zero, Biggest)
Verdict ==
    IF ~Shape THEN "reject shape"
    ELSE IF "kept" \in DOMAIN Lines[job] /\ Lines[job].kept = 0 THEN "reject the arguments were changed"
    ELSE IF Mismatch = {} THEN "accept"
    ELSE IF Dubious THEN "skip"
    ELSE LET p == CHOOSE x \in Mismatch : TRUE
         IN  "reject pixel " \o ToString(p) \o " model " \o NStr(Output[p[1]][p[2]]) \o " code "
             \o NStr(Lines[job].out[p[1]][p[2]])
             \o (IF TotalOK THEN "" ELSE " total: model " \o NStr(ImageSum(Output)) \o " code " \o NStr(OutSum))
Judge == Done => PrintT(<<"V", Lines[job].id, Verdict>>)

Tol == NRat(1, 100000000)
Bounds == BoundsInv(Tol)
Ledger == LedgerInv(Tol)
Conserved == ConservedInv(Tol)
=============================================================================

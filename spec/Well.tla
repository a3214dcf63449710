-------------------------------- MODULE Well --------------------------------
(***************************************************************************)
(* The fraction of the pixel well that a charge cloud of n electrons       *)
(* reaches (property W01).  p = [fw, notch, beta, fef]: full well depth,   *)
(* notch depth, well fill power, and the volume of the first electron.     *)
(***************************************************************************)
EXTENDS Num

Vol(p, n) ==
    IF NLeq(n, Zero) THEN p.fef
    ELSE LET x == NClamp(NDiv(NSub(n, p.notch), NSub(p.fw, p.notch)), Zero, One)
             v == NPow(x, p.beta)
         IN  IF NIsZero(p.fef) THEN v ELSE NAdd(p.fef, NMul(NSub(One, p.fef), v))
=============================================================================

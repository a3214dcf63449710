------------------------------ MODULE Separate ------------------------------
(***************************************************************************)
(* Separation of an image into a smooth part and read noise (property Y04), *)
(* by the user's choice of amplitude of the noise: the smooth part starts   *)
(* as the image, and takes the noise model (module Noise) of it as a step   *)
(* towards - or, if the noise taken out is more than was asked for, away    *)
(* from - the smooth part, until their difference has the r.m.s. asked for  *)
(* or the iterations run out.  Each time it passes the value asked for the  *)
(* steps get shorter.                                                      *)
(*                                                                         *)
(* A job J is a record [image, amp, frac, scale, cols, iters, share].       *)
(***************************************************************************)
EXTENDS Noise

CONSTANTS NJobs, Job(_)
VARIABLES job, k, smooth, rms, slower, close
vars == <<job, k, smooth, rms, slower, close>>
J == Job(job)

Shape == (1..Len(J.image)) \X (1..Len(J.image[1]))
Each(Op(_, _)) == [i \in 1..Len(J.image) |-> [j \in 1..Len(J.image[1]) |-> Op(i, j)]]

(* Pixels without charge do not count for the r.m.s. *)
Threshold == NRat(1, 10)
Counted(sm) == {p \in Shape : NLt(Threshold, J.image[p[1]][p[2]]) \/ NLt(Threshold, sm[p[1]][p[2]])}
MeanSquare(sm) ==
    LET c == Counted(sm)
        sq(p) == LET x == NSub(J.image[p[1]][p[2]], sm[p[1]][p[2]]) IN NMul(x, x)
    IN  NDiv(FoldSet(LAMBDA p, a : NAdd(a, sq(p)), Zero, c), NInt(Cardinality(c)))
(* A decision that rounding may have made: two values closer than this       *)
Tiny == NRat(1, 10000000)
Within(x, y) == NLt(NAbs(NSub(x, y)), Tiny)
Accuracy == NRat(1, 10000)

Init ==
    /\ job \in 1..NJobs
    /\ k = 0 /\ smooth = J.image /\ rms = Zero /\ slower = 1 /\ close = FALSE

Missing == NSub(J.amp, rms)
Stop == k = J.iters \/ (k > 0 /\ NLt(NAbs(Missing), Accuracy))
Iterate ==
    /\ ~Stop
    /\ k' = k + 1
    /\ LET m == NoiseModel(J.image, smooth, J.amp, J.frac, J.cols)
           f == NDiv(J.scale, NInt(slower))
           g == IF NPos(Missing) THEN f ELSE NNeg(f)
       IN  smooth' = Each(LAMBDA i, j : NAdd(smooth[i][j], NMul(m[i][j], g)))
    /\ rms' = NSqrt(MeanSquare(smooth'))
    /\ slower' = IF NLt(NMul(NSub(J.amp, rms'), Missing), Zero) THEN slower + 1 ELSE slower
    (* rounding may decide: whether a pixel counts, whether to stop, which side of the target *)
    /\ close' = (close \/ Within(NAbs(NSub(J.amp, rms')), Accuracy) \/ Within(rms', J.amp)
                       \/ \E p \in Shape : Within(smooth'[p[1]][p[2]], Threshold) /\ ~NLt(Threshold, J.image[p[1]][p[2]]))
    /\ UNCHANGED job
Next == Iterate
Spec == Init /\ [][Next]_vars

(* In the end *)
Noisy == Each(LAMBDA i, j : NMul(J.share, NSub(J.image[i][j], smooth[i][j])))
Smooth == Each(LAMBDA i, j : NSub(J.image[i][j], Noisy[i][j]))

(* The noise never runs away: every step is bounded by its clips *)
StepBound == NMul(J.scale, NAdd(One, NMul(NInt(5), NMul(J.amp, J.frac))))
Bounded ==
    \A p \in Shape : NLeq(NAbs(NSub(J.image[p[1]][p[2]], smooth[p[1]][p[2]])), NAdd(Tiny, NMul(NInt(k), StepBound)))
=============================================================================

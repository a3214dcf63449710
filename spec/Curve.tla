------------------------------- MODULE Curve --------------------------------
(***************************************************************************)
(* Occupancy of a continuum of release timescales as a function of time.   *)
(*                                                                         *)
(* A species with a (log-normal) distribution of release timescales, all   *)
(* filled at time 0 and left alone, is filled to the fraction CFill(c, t)  *)
(* at time t.  CTime(c, phi) reads an occupancy back as that elapsed time, *)
(* and CAfter(c, t) is the occupancy once traps last filled a time t ago   *)
(* have spent one dwell time within a cloud, with a finite capture time.   *)
(*                                                                         *)
(* Here a curve is any decreasing piecewise-linear function, given by the  *)
(* sequences c.T (increasing times from 0), c.F (occupancies from 1 to 0)  *)
(* and c.A (occupancies after capture).  spec/java/dbl/Curve.java puts the *)
(* integral over the distribution in its place, tabulated at a thousand    *)
(* times spaced evenly in log(time) as documented in src/traps.cpp, for a  *)
(* curve given by [mu, sig, cr, dt, tmin, tmax].                           *)
(***************************************************************************)
EXTENDS Num

(* Linear interpolation of the points (xs[i], ys[i]), xs increasing *)
LerpUp(xs, ys, x) ==
    IF NLeq(x, xs[1]) THEN ys[1]
    ELSE IF NLeq(xs[Len(xs)], x) THEN ys[Len(ys)]
    ELSE LET i == CHOOSE k \in 1..(Len(xs) - 1) : NLeq(xs[k], x) /\ NLt(x, xs[k + 1])
         IN  NAdd(ys[i], NMul(NSub(ys[i + 1], ys[i]),
                              NDiv(NSub(x, xs[i]), NSub(xs[i + 1], xs[i]))))

Backwards(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

CFill(c, t) == LerpUp(c.T, c.F, t)
CTime(c, phi) == LerpUp(Backwards(c.F), Backwards(c.T), phi)
CAfter(c, t) == LerpUp(c.T, c.A, t)
(* The integral itself, not the table: [mu, sig, ...] at time t *)
CExact(c, t) == LerpUp(c.T, c.F, t)
CExactAfter(c, t) == LerpUp(c.T, c.A, t)

(* One dwell time without capture *)
CAge(c, phi) == CFill(c, NAdd(CTime(c, phi), c.dt))
(* One dwell time within a cloud *)
CCapture(c, phi) == CAfter(c, CTime(c, phi))
=============================================================================

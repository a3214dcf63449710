------------------------------ MODULE Species -------------------------------
(***************************************************************************)
(* From the trap species a user describes to those of module Traps: what   *)
(* one dwell time does to the occupancy of each species (T03-T06).         *)
(***************************************************************************)
EXTENDS Traps

(* Instant capture *)
IcSpecies(x, frac, dwell) ==
    LET uni == NIsZero(x.vb)
        dd  == IF uni THEN x.d
               ELSE NDiv(x.d, NSub(One, NDiv(NAdd(x.va, x.vb), Two)))
        q   == NExp(NNeg(NMul(NDiv(One, x.tau), dwell)))
    IN  [d |-> NMul(dd, frac), va |-> x.va, vb |-> x.vb, uni |-> uni, pe |-> NSub(One, q)]
(* Slow capture: rates 1/tc and 1/tau act together; tc = 0 is instant *)
ScSpecies(x, frac, dwell) ==
    LET rr == NDiv(One, x.tau)
        cr == NDiv(One, x.tc)
        ex == NDiv(NSub(One, NExp(NNeg(NMul(NAdd(rr, cr), dwell)))), NAdd(rr, cr))
        instant == NIsZero(x.tc)
    IN  [d |-> NMul(x.d, frac),
         pe |-> NSub(One, NExp(NNeg(NMul(rr, dwell)))),
         pfe |-> IF instant THEN One ELSE NMul(cr, ex),
         pff |-> IF instant THEN One ELSE NSub(One, NMul(rr, ex))]
CoCurve(x, dwell, tmin, transfers) ==
    [mu |-> x.tau, sig |-> x.sig, dt |-> dwell,
     cr |-> IF NIsZero(x.tc) THEN Zero ELSE NDiv(One, x.tc),
     tmin |-> tmin, tmax |-> NMul(NInt(transfers), dwell)]
CoSpecies(x, frac, dwell, tmin, transfers) ==
    [d |-> NMul(x.d, frac), c |-> CoCurve(x, dwell, tmin, transfers)]

Kinds == <<"ic", "sc", "icco", "scco">>
MakeManager(kind, list, ph, frac, dwell, transfers) ==
    [kind |-> kind, ph |-> ph,
     sp |-> [j \in 1..Len(list) |->
        CASE kind = "ic"   -> IcSpecies(list[j], frac, dwell)
          [] kind = "sc"   -> ScSpecies(list[j], frac, dwell)
          [] kind = "icco" -> CoSpecies(list[j], frac, dwell, dwell, transfers)
          [] kind = "scco" -> CoSpecies(list[j], frac, dwell, NDiv(dwell, NInt(30)), transfers)]]
=============================================================================

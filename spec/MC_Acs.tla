------------------------------- MODULE MC_Acs --------------------------------
(***************************************************************************)
(* Time passes (property Y02), from the installation in steps of some days, *)
(* with every half day around the epochs of change.  Every date is printed,  *)
(* to be asked of the real code.                                            *)
(***************************************************************************)
EXTENDS Acs
VARIABLES now, before
Days == 97
Horizon == NInt(2466000)
Around(e) == NLt(NAbs(NSub(now, e)), NInt(100))
Step == IF Around(Launch) \/ Around(Cooled) \/ Around(Repaired) THEN NRat(1, 2) ELSE NInt(Days)
Init == now = Launch /\ before = Launch
Next == NLt(now, Horizon) /\ now' = NAdd(now, Step) /\ before' = now
Spec == Init /\ [][Next]_<<now, before>>
Grows == (now # before) => NLt(TotalDensity(before), TotalDensity(now))
Positive == NPos(TotalDensity(now))
Proportions ==
    /\ NEq(NSum(Fractions), One)
    /\ NEq(NSum([j \in 1..3 |-> AcsTraps(now)[j].d]), TotalDensity(now))
    /\ \A j \in 1..3 : NPos(AcsTraps(now)[j].d)
(* warmer traps release sooner; they are listed from fast to slow *)
Slower ==
    /\ \A j \in 1..3 : NLeq(ReleaseTimes(before)[j], ReleaseTimes(now)[j])
    /\ \A j \in 1..2 : NLt(ReleaseTimes(now)[j], ReleaseTimes(now)[j + 1])
Emit == PrintT(<<"V", NStr(now)>>)
=============================================================================

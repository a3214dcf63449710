--------------------------------- MODULE Acs ---------------------------------
(***************************************************************************)
(* The CTI model of the Advanced Camera for Surveys of the Hubble Space     *)
(* Telescope on a (Julian) date (property Y02; Massey et al. 2014).  Trap   *)
(* density grows linearly with time in service in two epochs, before and    *)
(* after the repair of the electronics in servicing mission 4; release      *)
(* times depend on the operating temperature, which was changed once.       *)
(***************************************************************************)
EXTENDS Num

Launch == NRat(4904669, 2)         \* 2452334.5: installed, 1 March 2002
Cooled == NInt(2453920)            \* temperature changed, 3 July 2006
Repaired == NInt(2454968)          \* SM4, 16 May 2009

Recalibrated == NRat(1011, 1000)
TotalDensity(date) ==
    LET t == NSub(date, Launch)
    IN  IF NLt(date, Repaired)
        THEN NAdd(NRat(17845, 1000000), NMul(NRat(35488, 100000000), t))
        ELSE NMul(Recalibrated, NAdd(NRat(-246591, 1000000), NMul(NRat(55898, 100000000), t)))
Fractions == <<NRat(17, 100), NRat(45, 100), NRat(38, 100)>>
ReleaseTimes(date) ==
    IF NLt(date, Cooled) THEN <<NRat(48, 100), NRat(486, 100), NRat(206, 10)>>
    ELSE <<NRat(74, 100), NRat(77, 10), NInt(37)>>
AcsTraps(date) ==
    [j \in 1..3 |-> [d |-> NMul(Fractions[j], TotalDensity(date)), tau |-> ReleaseTimes(date)[j], va |-> Zero, vb |-> Zero]]
AcsPhase == [fw |-> NInt(84700), notch |-> Zero, beta |-> NRat(478, 1000), fef |-> Zero]
AcsOverscan == 2048
AcsPrescan == 24
AcsReadNoise == NInt(4)
=============================================================================

------------------------------- MODULE MC_Roe -------------------------------
(***************************************************************************)
(* Every combination of the settings of the readout electronics within the *)
(* ranges of CONF (a JSON file), over exact rationals: the schedules and    *)
(* clock sequences of module Roe satisfy R01-R04 as stated to users.        *)
(***************************************************************************)
EXTENDS Roe, SequencesExt, Json, IOUtils

Conf == JsonDeserialize(IOEnv.CONF)
Values(s) == ToSet(s)

VARIABLES r, rows, express, woff, M   \* M: the schedule
vars == <<r, rows, express, woff, M>>

DwellOf(n) == [i \in 1..n |-> One]
Init ==
    /\ rows \in Values(Conf.rows) /\ woff \in Values(Conf.offset) /\ express \in Values(Conf.express)
    /\ \E t \in Values(Conf.type), n \in Values(Conf.phases), ps \in Values(Conf.prescan), os \in Values(Conf.overscan),
          e \in Values(Conf.eft), f \in Values(Conf.fra), m \in Values(Conf.intm), p \in Values(Conf.npumps) :
        /\ t = 1 => e = 0
        /\ t = 2 => (ps = 0 /\ os = -1 /\ woff = 0)
        /\ t # 2 => p = 1
        /\ r = [type |-> t, dwell |-> DwellOf(IF t = 2 THEN 2 * n ELSE n), prescan |-> ps, overscan |-> os,
                ebc |-> 1, eft |-> e, fra |-> IF t = 2 THEN 0 ELSE f, intm |-> m, npumps |-> p]
        /\ M = [passes |-> 0]
Build ==
    /\ M.passes = 0
    /\ M' = Matrix(r, rows, express, woff)
    /\ UNCHANGED <<r, rows, express, woff>>
Next == Build
Spec == Init /\ [][Next]_vars

Built == M.passes > 0
Pass == 0..(M.passes - 1)
Pixel == 0..(rows - 1)
Total(i) == NSum([k \in 1..M.passes |-> M.E[k - 1][i]])
Leads(k, i) == NPos(M.E[k][i]) /\ \A j \in 0..(i - 1) : NIsZero(M.E[k][j])
Whole(x) == NEq(NCeil(x), x)

(* R01 *)
NonNegative == Built => \A k \in Pass, i \in Pixel : NLeq(Zero, M.E[k][i])
ExactlyItsTransfers == (Built /\ r.type = 0) => \A i \in Pixel : NEq(Total(i), NInt(IMax(0, Distance(r, woff, i))))
OwnDistance ==   \* without overscan, the distance in pixels
    (Built /\ r.type = 0 /\ r.overscan = -1) => \A i \in Pixel : NEq(Total(i), NInt(r.prescan + woff + i + 1))
(* R01, R02: integer multipliers on request *)
Integers == (Built /\ r.intm = 1) => \A k \in Pass, i \in Pixel : Whole(M.E[k][i])
(* R02: no more passes than asked for but for first transfers, no more       *)
(* transfers at once than that needs                                         *)
NPasses == Built =>
    LET n == IF r.type = 2 THEN r.npumps
             ELSE IF r.type = 1 /\ r.overscan >= 0 THEN r.prescan + r.overscan - 1
             ELSE rows + woff + r.prescan
    IN  /\ (r.eft = 0 /\ express > 0) => M.passes <= express
        /\ M.passes <= IMax(n, 1)
AtOnce ==
    LET n == rows + woff + r.prescan
    IN  (Built /\ r.type = 0) => \A k \in Pass, i \in Pixel :
            NLeq(M.E[k][i], NAdd(NCeil(NDiv(NInt(n), NInt(M.passes))),
                                 IF r.eft = 1 THEN NInt(n) ELSE Zero))
(* R02: a pass that begins later than the pass before resumes from the state  *)
(* that pass had just before the same pixel                                   *)
Resumes ==
    (Built /\ r.type = 0 /\ r.eft = 0) =>
        \A k \in Pass \ {0} : \A i \in Pixel :
            Leads(k, i) => IF i = 0 THEN StoreAfter(r, M, rows, k - 1) = {}
                           ELSE (StoreAfter(r, M, rows, k - 1) = {i - 1} /\ NPos(M.E[k - 1][i - 1]))
(* R02: later passes carry later transfers: no pixel begins a pass that an    *)
(* earlier pixel has not begun, and none comes back                           *)
Ordered ==
    (Built /\ r.type = 0 /\ r.eft = 0) =>
        \A k \in Pass, i \in Pixel : (k > 0 /\ NPos(M.E[k][i])) => NPos(M.E[k - 1][i])
(* R02: with separate first transfers each pixel leads exactly one pass that  *)
(* is its own, with a multiplier of one, before any of its other transfers    *)
(* and with nothing stored                                                    *)
FirstTransfers ==
    (Built /\ r.type = 0 /\ r.eft = 1) =>
        /\ \A k \in Pass : StoreAfter(r, M, rows, k) = {}
        /\ \A i \in Pixel :
              (i > 0 \/ (woff = 0 /\ r.prescan = 0)) =>
              (NPos(Total(i)) =>
                 LET L == {k \in Pass : Leads(k, i)}
                 IN  r.overscan = -1 => (Cardinality(L) = 1 /\ \A k \in L : NEq(M.E[k][i], One)))
(* R03 *)
InjectionCycles ==
    (Built /\ r.type = 1) =>
        /\ \A k \in Pass, i \in Pixel : NEq(M.E[k][i], M.E[k][0])
        /\ NEq(Total(0), NInt(IF r.overscan >= 0 THEN IMax(0, r.prescan + r.overscan - 1)
                              ELSE r.prescan + woff + rows))
PumpCycles ==
    (Built /\ r.type = 2) =>
        /\ \A i \in Pixel : NEq(Total(i), NInt(r.npumps))
        /\ \A k \in Pass \ {0}, i \in Pixel : NPos(M.E[k][i]) => NPos(M.E[k - 1][i])
        /\ \A k \in Pass \ {M.passes - 1}, i \in Pixel : NPos(M.E[k][i]) => i \in StoreAfter(r, M, rows, k)

(* R04 *)
Steps == 0..(NSteps(r) - 1)
Phases == 0..(NPhases(r) - 1)
OneHigh == \A s \in Steps : Cardinality({i \in Phases : CaptureFrom(r, s, i) # {}}) = 1
OneCloud == \A s \in Steps, i \in Phases : Cardinality(CaptureFrom(r, s, i)) <= 1
Shares == \A s \in Steps, i \in Phases :
    /\ Cardinality(ReleaseTo(r, s, i)) \in {1, 2}
    /\ NEq(NMul(NInt(Cardinality(ReleaseTo(r, s, i))), ReleaseShare(r, s, i)), One)
(* what is released within the cloud goes back to that cloud *)
ReleasedIntoCloud == \A s \in Steps, i \in Phases :
    CaptureFrom(r, s, i) # {} => ReleaseTo(r, s, i) = CaptureFrom(r, s, i)
(* packets move one phase at a time, towards readout, and to and fro in       *)
(* pumping                                                                    *)
At(s) == PacketAt(r, s) * NPhases(r) + HighPhase(r, s)
Continuous == \A s \in Steps : s > 0 => IAbs(At(s) - At(s - 1)) = 1
Closed == IF r.type = 2 THEN IAbs(At(NSteps(r) - 1) - At(0)) = IF NPhases(r) = 0 THEN 0 ELSE 1
          ELSE At(NSteps(r) - 1) = NPhases(r) - 1 /\ At(0) = 0
(* nothing is released towards readout past the packet, if so forced          *)
NotTowardsReadout == (r.fra = 1 /\ r.type # 2) => \A s \in Steps, i \in Phases : \A q \in ReleaseTo(r, s, i) : q >= 0
=============================================================================

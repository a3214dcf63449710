------------------------------- MODULE Setup --------------------------------
(***************************************************************************)
(* From the arguments a user gives to the derived constants of the state   *)
(* machine: trap managers, express matrix, clock sequence, windows.        *)
(*                                                                         *)
(* A direction as the user gives it:                                       *)
(*   [roe, ccd |-> [phases, frac], traps |-> [ic, sc, icco, scco],          *)
(*    express, offset, w0, w1, prune_n, prune_f]                           *)
(***************************************************************************)
EXTENDS Clock, Species

NullDir == [on |-> FALSE]

(* T08: kinds act in this order, and empty ones do not act at all *)
Managers(x, p, dwell, transfers) ==
    LET present == SelectSeq(Kinds, LAMBDA k : Len(x.traps[k]) > 0)
    IN  [j \in 1..Len(present) |->
            MakeManager(present[j], x.traps[present[j]], x.ccd.phases[p], x.ccd.frac[p], dwell, transfers)]

(* How long the traps of phase p dwell in a step.  The readout is documented *)
(* to wait dwell[s] in step s; the implementation gives the traps of phase p *)
(* dwell[p] in every step (a known finding), which differs only if dwell     *)
(* times are unequal.                                                        *)
DwellOfPhase(r, p) == r.dwell[p]
(* x.bystep = 1 asks for the documented times *)
ByStep(x) == "bystep" \in DOMAIN x /\ x.bystep = 1

RowStop(x, rows) == IF x.w1 = -1 THEN rows ELSE x.w1

(* Longest history the tables of a continuum must cover *)
TableTransfers(x, M, rows, cols) ==
    (RowStop(x, rows) - x.w0 + x.offset + x.roe.prescan)
    * (IF x.roe.type = 2 THEN M.passes ELSE 1)
    * (IF x.roe.ebc = 1 THEN 1 ELSE cols)
    * NSteps(x.roe)

(* Direction x on an image (in its own orientation) of rows x cols, with its  *)
(* window of columns                                                          *)
MakeDir(x, rows, cols, c0, c1) ==
    LET r == x.roe
        M == Matrix(r, rows, x.express, x.offset)
        trans == TableTransfers(x, M, rows, cols)
        mg == [p \in 1..NPhases(r) |-> Managers(x, p, DwellOfPhase(r, p), trans)]
    IN  [on |-> TRUE, r |-> r, passes |-> M.passes, rows |-> rows,
         todo |-> [k \in 0..(M.passes - 1) |->
                     LET all == [i \in 1..(RowStop(x, rows) - x.w0) |->
                                   [i |-> x.w0 + i - 1, mult |-> M.E[k][x.w0 + i - 1]]]
                     IN  SelectSeq(all, LAMBDA t : ~NIsZero(t.mult))],
         stores |-> [k \in 0..(M.passes - 1) |-> StoreAfter(r, M, rows, k)],
         w0 |-> x.w0, c0 |-> c0, c1 |-> IF c1 = -1 THEN cols ELSE c1,
         steps |-> [s \in 1..NSteps(r) |-> [p \in 1..NPhases(r) |->
                     [cap |-> CaptureFrom(r, s - 1, p - 1), rel |-> ReleaseTo(r, s - 1, p - 1),
                      share |-> ReleaseShare(r, s - 1, p - 1)]]],
         order |-> [n \in 1..(NSteps(r) * NPhases(r)) |->
                     <<((n - 1) \div NPhases(r)) + 1, ((n - 1) % NPhases(r)) + 1>>],
         mg |-> mg,
         during |-> [s \in 1..NSteps(r) |-> IF ByStep(x) THEN [p \in 1..NPhases(r) |-> Managers(x, p, r.dwell[s], trans)] ELSE mg],
         thr |-> x.prune_n, freq |-> x.prune_f,
         dusty |-> Dusty(r, rows, x.express, x.offset) \/ DustyTrim(r, rows, x.express, x.offset)]

(* The job of a call: the parallel window of columns is the serial window of  *)
(* rows (x.sw) and the other way round (x.pw)                                 *)
HasTraps(x) == \E k \in {"ic", "sc", "icco", "scco"} : Len(x.traps[k]) > 0
MakeJob(x) ==
    LET rows == Len(x.image)
        cols == Len(x.image[1])
        hasP == x.hasP = 1
        hasS == x.hasS = 1
        cw   == IF x.mode = 0 THEN <<x.c0, x.c1>> ELSE x.sw
    IN  [image |-> x.image, mode |-> IF x.mode = 2 THEN 2 ELSE 1, iters |-> x.iters, neg |-> x.neg,
         clampfirst |-> IF "clampfirst" \in DOMAIN x THEN x.clampfirst ELSE 0,
         bounce |-> IF "bounce" \in DOMAIN x THEN x.bounce ELSE << >>, bwin |-> <<x.pw[1], x.pw[2], x.sw[1], x.sw[2]>>,
         dirs |-> << IF hasP THEN MakeDir(x.P, rows, cols, cw[1], cw[2]) ELSE NullDir,
                     IF hasS THEN MakeDir(x.S, cols, rows, x.pw[1], x.pw[2]) ELSE NullDir >>]
=============================================================================

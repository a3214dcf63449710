------------------------------- MODULE Clock --------------------------------
(***************************************************************************)
(* Clocking an image through the traps: the state machine that arCTIc      *)
(* computes (properties C01-C08), one action per pixel-to-pixel transfer.  *)
(*                                                                         *)
(* A job is a record [image, mode, iters, neg, dirs]: add trails           *)
(* (mode 1), or remove them by `iters` iterations (mode 2), allowing       *)
(* negative pixels or not; dirs[1] is parallel clocking (along columns)    *)
(* and dirs[2] serial clocking (along rows, done on the transposed image); *)
(* bounce are the oscillators (module Bounce) of the electronics that read *)
(* the trailed image out, in the window bwin.                              *)
(* A direction is a record                                                 *)
(*   on            whether the direction is clocked at all                 *)
(*   r             the readout electronics (Roe)                           *)
(*   passes        number of express passes                                *)
(*   todo[k]       the transfers of pass k in order, as records [i, mult]  *)
(*                 of a pixel and its express multiplier (never zero)      *)
(*   stores[k]     pixels of pass k after which trap states are stored     *)
(*   w0, c0, c1    first row of the window, window of columns (c1 excluded)*)
(*   steps         the clock sequence: steps[s][p] = [cap, rel, share] with *)
(*                 the sets of pixels (relative to this one) that phase p  *)
(*                 captures from and releases to in step s                 *)
(*   mg[p]         the trap managers of phase p, in the order they act     *)
(*   during[s][p]  the same for the time they dwell in step s              *)
(*   thr, freq     pruning threshold and frequency                         *)
(***************************************************************************)
EXTENDS Traps, Roe, Bounce

CONSTANTS NJobs, Job(_)

VARIABLES
    job,    \* which job
    it,     \* iteration of the correction, from 1
    d,      \* direction, 1 or 2; 3 when the image is trailed, 4 when it has been
            \* read out as well
    col,    \* column being clocked, from 0
    pass,   \* express pass, from 0
    pos,    \* position in the transfers of the pass, from 1
    img,    \* the image being trailed, in the orientation of direction d
    est,    \* the current estimate of the untrailed image (mode 2)
    tr,     \* trap states: tr[p][j] are the levels of manager j in phase p
    st,     \* stored trap states
    led,    \* ledger: charge given to the image by the traps so far, and
            \* charge released beyond its edges, in this direction
    near    \* whether rounding could have decided a pruning

vars == <<job, it, d, col, pass, pos, img, est, tr, st, led, near>>

J == Job(job)
Dir(k) == J.dirs[k]
CD == Dir(d)

-----------------------------------------------------------------------------
Rows(im) == Len(im)
Cols(im) == Len(im[1])
Transpose(im) == [j \in 1..Cols(im) |-> [i \in 1..Rows(im) |-> im[i][j]]]
ImageSum(im) == NSum([i \in 1..Len(im) |-> NSum(im[i])])
ImageMap2(Op(_, _), A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> Op(A[i][j], B[i][j])]]

EmptyTraps(D) == [p \in 1..Len(D.mg) |-> [j \in 1..Len(D.mg[p]) |-> NoLevels]]
HeldAll(D, T) ==
    NSum([p \in 1..Len(D.mg) |-> NSum([j \in 1..Len(D.mg[p]) |-> Held(D.mg[p][j], T[p][j])])])

(* A cloud that ends exactly where a level does: rounding decides whether a   *)
(* level without volume is left, which is of no consequence unless pruned     *)
Tie(m, S, n) ==
    LET v == Vol(m.ph, n)
    IN  NPos(v) /\ \E k \in 1..Len(S) : NClose(S[k].t, v, NRat(1, 1000000000), Zero)

(* One phase during one step: all managers act in turn on the cloud. *)
PhaseDwell(D, T, s, p, n) ==
    FoldLeft(LAMBDA a, j :
                LET x == Dwell(D.during[s][p][j], T[p][j], NAdd(n, a.r))
                IN  [r |-> NAdd(a.r, x.r), S |-> Append(a.S, x.S),
                     tie |-> a.tie \/ (D.freq > 0 /\ Tie(D.mg[p][j], T[p][j], NAdd(n, a.r)))],
             [r |-> Zero, S |-> << >>, tie |-> FALSE], [j \in 1..Len(D.mg[p]) |-> j])

InImage(im, i) == 0 <= i /\ i < Rows(im)
Floor0(neg, x) == IF neg = 0 /\ NLt(x, Zero) THEN Zero ELSE x

(* One pixel-to-pixel transfer of pixel i of column c, counted `mult` times: *)
(* a = [im, T, gave, lost] *)
StepPhase(D, a, neg, i, c, mult, s, p) ==
    LET sp == D.steps[s][p]
        n  == FoldSet(LAMBDA q, x : IF InImage(a.im, i + q) THEN NAdd(x, a.im[i + q + 1][c + 1]) ELSE x,
                      Zero, sp.cap)
        w  == PhaseDwell(D, a.T, s, p, n)
        x  == NMul(NMul(w.r, mult), sp.share)
        T1 == [a.T EXCEPT ![p] = w.S]
    IN  FoldSet(LAMBDA q, b :
                   IF InImage(a.im, i + q)
                   THEN LET old == b.im[i + q + 1][c + 1]
                            new == Floor0(neg, NAdd(old, x))
                        IN  [b EXCEPT !.im[i + q + 1][c + 1] = new, !.gave = NAdd(b.gave, NSub(new, old))]
                   ELSE [b EXCEPT !.lost = NAdd(b.lost, x)],
                [a EXCEPT !.T = T1, !.tie = a.tie \/ w.tie], sp.rel)

TransferPixel(D, im, T, neg, i, c, mult) ==
    FoldLeft(LAMBDA a, sp : StepPhase(D, a, neg, i, c, mult, sp[1], sp[2]),
             [im |-> im, T |-> T, gave |-> Zero, lost |-> Zero, tie |-> FALSE],
             D.order)

PruneAll(D, T) ==
    [p \in 1..Len(D.mg) |-> [j \in 1..Len(D.mg[p]) |-> Prune(D.mg[p][j], T[p][j], D.thr)]]

-----------------------------------------------------------------------------
(* Start a direction with empty traps *)
FirstDir(k) == IF k <= 2 /\ ~Dir(k).on THEN (IF k = 1 /\ Dir(2).on THEN 2 ELSE 3) ELSE k
Enter(k, im) ==
    /\ d' = k /\ pass' = 0 /\ pos' = 1
    /\ img' = im
    /\ IF k = 3
       THEN col' = 0 /\ tr' = << >> /\ st' = << >>
       ELSE col' = Dir(k).c0 /\ tr' = EmptyTraps(Dir(k)) /\ st' = EmptyTraps(Dir(k))
    /\ led' = [gave |-> Zero, lost |-> Zero, start |-> ImageSum(im), left |-> Zero]

StartDir(j) == LET D == Job(j).dirs IN IF D[1].on THEN 1 ELSE IF D[2].on THEN 2 ELSE 3
StartImage(j, k, x) == IF k = 2 THEN Transpose(x) ELSE x

Init ==
    /\ job \in 1..NJobs
    /\ it = 1
    /\ d = StartDir(job)
    /\ col = (IF d = 3 THEN 0 ELSE CD.c0)
    /\ pass = 0 /\ pos = 1
    /\ img = StartImage(job, d, J.image)
    /\ est = J.image
    /\ tr = (IF d = 3 THEN << >> ELSE EmptyTraps(CD))
    /\ st = tr
    /\ led = [gave |-> Zero, lost |-> Zero, start |-> ImageSum(J.image), left |-> Zero]
    /\ near = FALSE

Clocking == d \in {1, 2} /\ col < CD.c1

(* C01: transfer one pixel *)
Transfer ==
    /\ Clocking /\ pass < CD.passes
    /\ pos <= Len(CD.todo[pass])
    /\ LET t  == CD.todo[pass][pos]
           a  == TransferPixel(CD, img, tr, J.neg, t.i, col, t.mult)
           pr == CD.freq > 0 /\ (t.i - CD.w0 + 1) % CD.freq = 0
           P  == PruneAll(CD, a.T)
           T2 == IF pr THEN [p \in 1..Len(P) |-> [j \in 1..Len(P[p]) |-> P[p][j].S]] ELSE a.T
       IN  /\ img' = a.im
           /\ tr' = T2
           /\ st' = IF t.i \in CD.stores[pass] THEN T2 ELSE st
           /\ led' = [led EXCEPT !.gave = NAdd(led.gave, a.gave), !.lost = NAdd(led.lost, a.lost)]
           /\ near' = (near \/ a.tie \/ (pr /\ \E p \in 1..Len(P) : \E j \in 1..Len(P[p]) : P[p][j].near))
    /\ pos' = pos + 1
    /\ UNCHANGED <<job, it, d, col, pass, est>>

(* R02: the next pass resumes from the stored state *)
EndPass ==
    /\ Clocking /\ pass < CD.passes
    /\ pos > Len(CD.todo[pass])
    /\ pass' = pass + 1 /\ pos' = 1
    /\ IF pass' = CD.passes
       THEN /\ tr' = tr /\ led' = led
       ELSE /\ tr' = st
            /\ led' = [led EXCEPT !.left = NAdd(led.left, NSub(HeldAll(CD, tr), HeldAll(CD, st)))]
    /\ UNCHANGED <<job, it, d, col, img, est, st, near>>

(* C04, C05: the next column starts with empty traps, or with those of this one *)
EndColumn ==
    /\ Clocking /\ pass = CD.passes
    /\ col' = col + 1 /\ pass' = 0 /\ pos' = 1
    /\ tr' = IF CD.r.ebc = 1 THEN EmptyTraps(CD) ELSE tr
    /\ st' = tr'
    /\ led' = [led EXCEPT !.left = NAdd(led.left, NSub(HeldAll(CD, tr), HeldAll(CD, tr')))]
    /\ UNCHANGED <<job, it, d, img, est, near>>

(* C03: serial clocking follows parallel clocking, on the transposed image *)
EndDirection ==
    /\ d \in {1, 2} /\ col >= CD.c1
    /\ LET back == IF d = 2 THEN Transpose(img) ELSE img
           k    == IF d = 1 /\ Dir(2).on THEN 2 ELSE 3
       IN  Enter(k, IF k = 2 THEN Transpose(back) ELSE back)
    /\ UNCHANGED <<job, it, est, near>>

(* Y03: pixel bounce, as the trailed image is read out *)
Final == IF Len(J.bounce) > 0 THEN 4 ELSE 3
ReadOut ==
    /\ d = 3 /\ Final = 4
    /\ d' = 4
    /\ img' = Bounced(J.bounce, img, J.bwin)
    /\ UNCHANGED <<job, it, col, pass, pos, est, tr, st, led, near>>

(* C07: one iteration of the correction *)
EndIteration ==
    /\ d = Final /\ J.mode = 2 /\ it <= J.iters
    /\ est' = ImageMap2(LAMBDA e, x : Floor0(IF J.clampfirst = 1 /\ it > 1 THEN 1 ELSE J.neg, NAdd(e, x)), est,
                        ImageMap2(NSub, J.image, img))
    /\ it' = it + 1
    /\ IF it' <= J.iters
       THEN Enter(StartDir(job), StartImage(job, StartDir(job), est'))
       ELSE UNCHANGED <<d, col, pass, pos, img, tr, st, led>>
    /\ UNCHANGED <<job, near>>

Done == d = Final /\ (J.mode = 1 \/ it > J.iters)
Output == IF J.mode = 1 THEN img ELSE est

Next == Transfer \/ EndPass \/ EndColumn \/ EndDirection \/ ReadOut \/ EndIteration
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Invariants, with a tolerance (zero over rationals)                        *)

(* T02 *)
BoundsInv(tol) ==
    d \in {1, 2} => \A p \in 1..Len(CD.mg) : \A j \in 1..Len(CD.mg[p]) :
        InBounds(CD.mg[p][j], tr[p][j], tol)

(* C02: the image changes by exactly what the traps gave it *)
LedgerInv(tol) ==
    d \in {1, 2} => NClose(ImageSum(img), NAdd(led.start, led.gave), tol, tol)

(* C02: when every transfer is computed individually, charge in the image,   *)
(* charge released beyond its edges and charge left in traps are conserved   *)
(* (no pixel being clamped, and pruning only where traps are uniform, since  *)
(* it takes them to be)                                                      *)
Individually(D) == \A k \in 0..(D.passes - 1) : \A q \in 1..Len(D.todo[k]) : NEq(D.todo[k][q].mult, One)
Uniform(D) == \A p \in 1..Len(D.mg) : \A j \in 1..Len(D.mg[p]) :
    D.mg[p][j].kind = "ic" => \A q \in 1..Len(D.mg[p][j].sp) : D.mg[p][j].sp[q].uni
ConservedInv(tol) ==
    (d \in {1, 2} /\ J.neg = 1 /\ Individually(CD) /\ (CD.freq = 0 \/ Uniform(CD))) =>
        NClose(NSum(<<ImageSum(img), led.lost, led.left, HeldAll(CD, tr)>>), led.start, tol, tol)

(* C08 *)
NonNegativeInv ==
    (J.neg = 0 /\ \A i \in 1..Rows(J.image), j \in 1..Cols(J.image) : NLeq(Zero, J.image[i][j])) =>
        \A i \in 1..Rows(img), j \in 1..Cols(img) : NLeq(Zero, img[i][j])

(* C06: nothing outside the window of columns changes *)
WindowInv ==
    (d = 1 /\ it = 1) => \A i \in 1..Rows(img), j \in 1..Cols(img) :
        (j - 1 < CD.c0 \/ j - 1 >= CD.c1) => img[i][j] = J.image[i][j]
=============================================================================

------------------------------ MODULE MC_Clock ------------------------------
(***************************************************************************)
(* The whole state machine over exact rationals, for every small image of   *)
(* a given shape with pixels from a small alphabet, and every setting of a  *)
(* list (properties C01-C08, T02, T08).  CONF is a JSON file                *)
(*   [settings, images]: images[s] are the images for setting s             *)
(* with numbers as fractions [n, d].  Species are given by what survives    *)
(* one unit of dwell time (see MC_Traps), so that everything is rational.   *)
(*                                                                          *)
(* Besides the step-by-step invariants of module Clock, the final image is  *)
(* compared with other runs of the same machinery, written as a function    *)
(* (Trail): one column at a time, with the rows before the window cut off,  *)
(* as two directions one after the other, and so on.  Every final image is  *)
(* printed, to be compared with that of the real code.                      *)
(***************************************************************************)
EXTENDS Setup, Json, IOUtils

Conf == JsonDeserialize(IOEnv.CONF)
Q(x) == NRat(x[1], x[2])
QSeq(s) == [i \in 1..Len(s) |-> Q(s[i])]
QImage(im) == [i \in 1..Len(im) |-> QSeq(im[i])]

RECURSIVE Power(_, _)
Power(q, k) == IF k = 0 THEN One ELSE NMul(q, Power(q, k - 1))
(* What replaces the exponentials of module Species: dwell is an integer *)
QIcSpecies(x, frac, dwell) ==
    [d |-> NMul(NDiv(Q(x.d), NSub(One, NDiv(NAdd(Q(x.va), Q(x.vb)), Two))), frac),
     va |-> Q(x.va), vb |-> Q(x.vb), uni |-> NIsZero(Q(x.vb)), pe |-> NSub(One, Power(Q(x.q), NToInt(dwell)))]
QScSpecies(x, frac, dwell) ==
    LET y == NDiv(NSub(One, Power(Power(Q(x.q), NToInt(dwell)), x.k + 1)), NInt(x.k + 1))
    IN  [d |-> NMul(Q(x.d), frac), pe |-> NSub(One, Power(Q(x.q), NToInt(dwell))),
         pfe |-> IF x.k = 0 THEN One ELSE NMul(NInt(x.k), y),
         pff |-> IF x.k = 0 THEN One ELSE NSub(One, y)]
QCoSpecies(x, frac, dwell, tmin, transfers) ==
    [d |-> NMul(Q(x.d), frac), c |-> [T |-> QSeq(x.T), F |-> QSeq(x.F), A |-> QSeq(x.A), dt |-> dwell]]

QDir(x) ==
    [x EXCEPT !.roe.dwell = QSeq(x.roe.dwell),
              !.ccd = [phases |-> [p \in 1..Len(x.ccd.phases) |->
                          [k \in DOMAIN x.ccd.phases[p] |-> Q(x.ccd.phases[p][k])]],
                       frac |-> QSeq(x.ccd.frac)],
              !.prune_n = Q(x.prune_n)]
Settings == TLCEval([s \in 1..Len(Conf.settings) |->
    LET x == Conf.settings[s]
    IN  [x EXCEPT !.P = IF x.hasP = 1 THEN QDir(x.P) ELSE NullDir,
                  !.S = IF x.hasS = 1 THEN QDir(x.S) ELSE NullDir]])
With(s, im) == [Settings[s] EXCEPT !.image = im]
(* jobs are numbered across the settings *)
Index == TLCEval(FlattenSeq([s \in 1..Len(Conf.settings) |->
    [k \in 1..Len(Conf.images[s]) |-> <<s, k>>]]))
Derived == TLCEval([j \in 1..Len(Index) |-> MakeJob(With(Index[j][1], QImage(Conf.images[Index[j][1]][Index[j][2]])))])
TNJobs == Len(Index)
TJob(j) == Derived[j]
(* (a pruning that is too close to call may go either way in the code) *)
Emit == Done => PrintT(<<"V", ToString(job), IF near THEN "near" ELSE "far",
            FoldLeft(LAMBDA a, r : a \o FoldLeft(LAMBDA b, x : b \o NStr(x) \o " ", "", r), "", Output)>>)

-----------------------------------------------------------------------------
(* The state machine as a function: the image after direction D, from trap   *)
(* states T0 in its first column                                             *)
PassFrom(D, a, neg, c, k) ==
    FoldLeft(LAMBDA b, t :
                LET x == TransferPixel(D, b.im, b.T, neg, t.i, c, t.mult)
                    P == PruneAll(D, x.T)
                    T2 == IF D.freq > 0 /\ (t.i - D.w0 + 1) % D.freq = 0
                          THEN [p \in 1..Len(P) |-> [j \in 1..Len(P[p]) |-> P[p][j].S]] ELSE x.T
                IN  [im |-> x.im, T |-> T2, st |-> IF t.i \in D.stores[k] THEN T2 ELSE b.st],
             [a EXCEPT !.T = a.st], D.todo[k])
ColumnFrom(D, a, neg, c) ==
    LET b == FoldLeft(LAMBDA x, k : PassFrom(D, x, neg, c, k - 1), a, [k \in 1..D.passes |-> k])
        T == IF D.r.ebc = 1 THEN EmptyTraps(D) ELSE b.T
    IN  [im |-> b.im, T |-> T, st |-> T]
TrailDir(D, im, neg) ==
    FoldLeft(LAMBDA a, c : ColumnFrom(D, a, neg, c),
             [im |-> im, T |-> EmptyTraps(D), st |-> EmptyTraps(D)],
             [c \in 1..(D.c1 - D.c0) |-> D.c0 + c - 1]).im
Trail(j, im) ==
    LET a == IF j.dirs[1].on THEN TrailDir(j.dirs[1], im, j.neg) ELSE im
    IN  IF j.dirs[2].on THEN Transpose(TrailDir(j.dirs[2], Transpose(a), j.neg)) ELSE a

Set == Index[job][1]
AddDone == Done /\ J.mode = 1
ColumnsOf(im, lo, n) == [i \in 1..Rows(im) |-> SubSeq(im[i], lo, lo + n - 1)]
Plain1 == J.dirs[1].on /\ ~J.dirs[2].on /\ Settings[Set].sw = <<0, -1>>

(* C03: the step-by-step machine is the composition of its directions, and    *)
(* serial clocking is parallel clocking of the transposed image               *)
Composes == AddDone => Output = Trail(J, J.image)
SerialIsParallel ==
    (AddDone /\ ~J.dirs[1].on /\ J.dirs[2].on /\ Settings[Set].pw = <<0, -1>>) =>
        LET x == Settings[Set]
            y == [x EXCEPT !.hasP = 1, !.hasS = 0, !.P = x.S, !.S = NullDir, !.image = Transpose(J.image),
                           !.pw = x.sw, !.sw = x.pw]
        IN  Output = Transpose(Trail(MakeJob(y), Transpose(J.image)))
(* C04: a column by itself *)
ColumnsAlone ==
    (AddDone /\ Plain1 /\ J.dirs[1].r.ebc = 1) =>
        \A c \in 1..Cols(J.image) :
            LET x == [Settings[Set] EXCEPT !.image = ColumnsOf(J.image, c, 1)]
            IN  ColumnsOf(Output, c, 1) = Trail(MakeJob(x), ColumnsOf(J.image, c, 1))
(* C05: columns read out later make no difference *)
Causal ==
    (AddDone /\ Plain1) =>
        \A n \in 1..(Cols(J.image) - 1) :
            ColumnsOf(Output, 1, n) = Trail(MakeJob([Settings[Set] EXCEPT !.image = ColumnsOf(J.image, 1, n)]),
                                            ColumnsOf(J.image, 1, n))
(* C06: leading rows without charge amount to an offset; rows outside the      *)
(* window are as good as absent, if every transfer is computed                 *)
Offsets ==
    (AddDone /\ Plain1 /\ Settings[Set].P.w0 = 0 /\ Settings[Set].P.offset > 0 /\ J.dirs[1].r.type = 0
        /\ (J.dirs[1].freq = 0 \/ Settings[Set].P.prune_n = Zero)) =>
        LET k  == Settings[Set].P.offset
            im == [i \in 1..(k + Rows(J.image)) |->
                      IF i <= k THEN [c \in 1..Cols(J.image) |-> Zero] ELSE J.image[i - k]]
            x  == [Settings[Set] EXCEPT !.image = im, !.P.offset = 0, !.P.w1 = -1]
            o  == Trail(MakeJob(x), im)
        IN  (Settings[Set].P.w1 = -1) => SubSeq(o, k + 1, Len(o)) = Output
WindowRows ==
    (AddDone /\ Plain1 /\ J.dirs[1].r.type = 0 /\ J.dirs[1].r.overscan = -1 /\ Settings[Set].P.express = 0
        /\ J.dirs[1].r.eft = 0 /\ NPhases(J.dirs[1].r) = 1) =>
        LET P  == Settings[Set].P
            w1 == IF P.w1 = -1 THEN Rows(J.image) ELSE P.w1
            im == SubSeq(J.image, P.w0 + 1, w1)
            x  == [Settings[Set] EXCEPT !.image = im, !.P.offset = P.offset + P.w0, !.P.w0 = 0, !.P.w1 = -1]
        IN  SubSeq(Output, P.w0 + 1, w1) = Trail(MakeJob(x), im)
WindowOutside ==
    (AddDone /\ Plain1 /\ NPhases(J.dirs[1].r) = 1) =>
        LET P  == Settings[Set].P
        IN  \A i \in 1..Rows(J.image) :
               (i <= P.w0 \/ (P.w1 # -1 /\ i > P.w1)) => Output[i] = J.image[i]
(* C07 *)
Corrects ==
    (Done /\ J.mode = 2) =>
        Output = FoldLeft(LAMBDA e, k : ImageMap2(LAMBDA a, b : Floor0(J.neg, NAdd(a, b)), e,
                                                   ImageMap2(NSub, J.image, Trail(J, e))),
                          J.image, [k \in 1..J.iters |-> k])
(* what a correction with this estimate would do to the trailed image of x    *)
FixedPoint ==
    (AddDone /\ J.neg = 1) => LET y == Trail(J, J.image)
               IN  ImageMap2(NAdd, J.image, ImageMap2(NSub, y, Output)) = J.image
(* T08: another order of the species, each of them in two halves, and species  *)
(* of no density make no difference                                           *)
Kinds4 == {"ic", "sc", "icco", "scco"}
Remixed(P, how) ==
    [P EXCEPT !.traps = [k \in Kinds4 |->
        LET l == P.traps[k]
            part(x, a, b) == [x EXCEPT !.d = <<a * x.d[1], b * x.d[2]>>]
        IN  CASE how = "order" -> Reverse(l)
              [] how = "split" -> FlattenSeq([i \in 1..Len(l) |-> <<part(l[i], 1, 3), part(l[i], 2, 3)>>])
              [] how = "none"  -> FlattenSeq([i \in 1..Len(l) |-> <<part(l[i], 0, 1), l[i]>>])]]
Mixes ==
    (AddDone /\ Plain1 /\ "mix" \in DOMAIN Settings[Set] /\ J.dirs[1].freq = 0) =>
        \A how \in {"order", "split", "none"} :
            Output = Trail(MakeJob([Settings[Set] EXCEPT !.P = Remixed(@, how), !.image = J.image]), J.image)
(* C08 *)
NonNegative == NonNegativeInv
(* T02, C02, C06 at every step *)
Bounds == BoundsInv(Zero)
Ledger == LedgerInv(Zero)
Conserved == ConservedInv(Zero)
Window == WindowInv
=============================================================================

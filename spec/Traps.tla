-------------------------------- MODULE Traps -------------------------------
(***************************************************************************)
(* The traps of one kind in one phase of one pixel, and what they do to a  *)
(* charge cloud that dwells there (properties T01-T08).                    *)
(*                                                                         *)
(* A manager m = [kind, ph, sp] has a kind of trap ("ic" instant capture,  *)
(* "sc" slow capture, "icco" and "scco" the same with a continuum of       *)
(* release timescales), the well ph of its phase, and species sp[j]:       *)
(*   d          density per unit of exposed volume                         *)
(*   va, vb     depths between which the exposure ramps up (ic), and       *)
(*   uni        whether the species is simply uniform                      *)
(*   pe         fraction of its traps emptied by release in a dwell time   *)
(*   pff, pfe   fraction full after a dwell time in a cloud, from full and *)
(*              from empty (sc)                                            *)
(*   c          its occupancy curve (icco, scco)                           *)
(*                                                                         *)
(* The state is a sequence of levels from the bottom of the well upwards:  *)
(* level [t, f] spans the depths from the level below up to t, and holds   *)
(* f[j] electrons per unit of exposed volume in traps of species j.  The   *)
(* implementation calls the boundaries "watermarks".                       *)
(***************************************************************************)
(* (TLCEval changes nothing: it makes TLC compute a value once.)            *)
EXTENDS Curve, Well, SequencesExt

NoLevels == << >>
Bottom(S, i) == IF i = 1 THEN Zero ELSE S[i - 1].t
Top(S) == IF Len(S) = 0 THEN Zero ELSE S[Len(S)].t

(* Exposed volume of a species between two depths: the integral of a ramp  *)
(* from 0 at va to 1 at vb                                                 *)
Exposed(s, v) ==
    IF NLeq(v, s.va) THEN Zero
    ELSE IF NLeq(s.vb, v) THEN NSub(v, NDiv(NAdd(s.va, s.vb), Two))
    ELSE LET x == NSub(v, s.va)
         IN  NDiv(NMul(x, x), NMul(Two, NSub(s.vb, s.va)))
Weight(m, j, lo, hi) ==
    IF m.kind # "ic" THEN NSub(hi, lo)
    ELSE IF m.sp[j].uni THEN NSub(hi, lo)
    ELSE NSub(Exposed(m.sp[j], hi), Exposed(m.sp[j], lo))

(* Electrons held, and those held by one level *)
HeldBy(m, S, i) ==
    NSum([j \in 1..Len(m.sp) |-> NMul(S[i].f[j], Weight(m, j, Bottom(S, i), S[i].t))])
Held(m, S) == NSum([i \in 1..Len(S) |-> HeldBy(m, S, i)])

(* Same, weighting every species as if it were uniform: what the counting  *)
(* function of the implementation reports and what pruning looks at        *)
PlainBy(S, i) == NMul(NSum(S[i].f), NSub(S[i].t, Bottom(S, i)))
Plain(S) == NSum([i \in 1..Len(S) |-> PlainBy(S, i)])

(* Occupancy of species j at depth v, in electrons per unit of volume *)
At(S, j, v) ==
    LET I == {i \in 1..Len(S) : NLt(Bottom(S, i), v) /\ NLeq(v, S[i].t)}
    IN  IF I = {} THEN Zero ELSE S[CHOOSE i \in I : TRUE].f[j]

(* Is there a boundary at v?  Insert one if not *)
SplitAt(m, S, v) == TLCEval(
    IF ~NPos(v) THEN S
    ELSE IF NLt(Top(S), v) THEN Append(S, [t |-> v, f |-> [j \in 1..Len(m.sp) |-> Zero]])
    ELSE LET i == CHOOSE k \in 1..Len(S) : NLeq(v, S[k].t) /\ NLt(Bottom(S, k), v)
         IN  IF NEq(S[i].t, v) THEN S
             ELSE SubSeq(S, 1, i - 1) \o <<[t |-> v, f |-> S[i].f]>> \o SubSeq(S, i, Len(S)))
NBelow(S, v) == Len(SelectSeq(S, LAMBDA l : NLeq(l.t, v)))

-----------------------------------------------------------------------------
(* One dwell time.  Each operator maps the levels S and the n electrons of  *)
(* the cloud to [r, S]: the electrons returned to the cloud (released less  *)
(* captured), and the levels left behind.                                   *)

(* Occupancy of species j after release alone *)
Aged(m, j, f) ==
    IF m.kind \in {"ic", "sc"} THEN NSub(f, NMul(f, m.sp[j].pe))
    ELSE IF NIsZero(m.sp[j].d) THEN f
    ELSE NMul(m.sp[j].d, CAge(m.sp[j].c, NDiv(f, m.sp[j].d)))
(* Occupancy of species j after release and capture within a cloud *)
Soaked(m, j, f) ==
    IF m.kind = "sc" THEN NAdd(NMul(m.sp[j].pff, f), NMul(m.sp[j].pfe, NSub(m.sp[j].d, f)))
    ELSE IF NIsZero(m.sp[j].d) THEN f
    ELSE NMul(m.sp[j].d, CCapture(m.sp[j].c, NDiv(f, m.sp[j].d)))

(* Levels above number k after release alone *)
AgedAbove(m, S, k) == TLCEval(
    [i \in 1..Len(S) |->
        IF i <= k THEN S[i]
        ELSE [t |-> S[i].t, f |-> [j \in 1..Len(m.sp) |-> Aged(m, j, S[i].f[j])]]])
(* Levels up to number k moved the fraction e of the way from S to T *)
Blend(m, S, T, k, e) == TLCEval(
    [i \in 1..Len(S) |->
        IF i > k THEN S[i]
        ELSE [t |-> S[i].t, f |-> [j \in 1..Len(m.sp) |->
                 IF NEq(e, One) THEN T[i].f[j]
                 ELSE NAdd(NMul(S[i].f[j], NSub(One, e)), NMul(e, T[i].f[j]))]]])
HeldUpTo(m, S, k) == NSum([i \in 1..k |-> HeldBy(m, S, i)])

(* Every level releases; then all traps below the cloud fill, if there are *)
(* electrons enough                                                        *)
InstantCapture(m, S, n) ==
    LET A   == AgedAbove(m, S, 0)
        rel == NSub(Held(m, S), Held(m, A))
        n1  == NAdd(n, rel)
        c   == Vol(m.ph, n1)
    IN  IF NIsZero(c) THEN [r |-> rel, S |-> A]
        ELSE LET B    == SplitAt(m, A, c)
                 k    == NBelow(B, c)
                 full == [t |-> c, f |-> [j \in 1..Len(m.sp) |-> m.sp[j].d]]
                 cap  == NSum([i \in 1..k |-> NSum([j \in 1..Len(m.sp) |->
                             NMul(NSub(m.sp[j].d, B[i].f[j]),
                                  Weight(m, j, Bottom(B, i), B[i].t))])])
                 e    == IF NIsZero(cap) THEN One ELSE NAbs(NDiv(n1, cap))
             IN  IF NLeq(One, e)
                 THEN [r |-> NSub(rel, cap), S |-> <<full>> \o SubSeq(B, k + 1, Len(B))]
                 ELSE [r |-> NSub(rel, NMul(e, cap)),
                       S |-> Blend(m, B, [i \in 1..Len(B) |-> full], k, e)]

(* Levels above the cloud release; the cloud then reaches a little higher, *)
(* and traps below it relax towards equilibrium                            *)
SlowCapture(m, S, n) ==
    LET c0  == Vol(m.ph, n)
        B0  == SplitAt(m, S, c0)
        A   == AgedAbove(m, B0, NBelow(B0, c0))
        rel == NSub(Held(m, B0), Held(m, A))
        n1  == IF NPos(rel) THEN NAdd(n, rel) ELSE n
        c   == IF NPos(rel) THEN Vol(m.ph, n1) ELSE c0
    IN  IF NIsZero(c) THEN [r |-> rel, S |-> A]
        ELSE LET B   == SplitAt(m, A, c)
                 k   == NBelow(B, c)
                 T   == TLCEval([i \in 1..k |->
                           [t |-> B[i].t, f |-> [j \in 1..Len(m.sp) |-> Soaked(m, j, B[i].f[j])]]])
                 net == NSub(HeldUpTo(m, B, k), HeldUpTo(m, T, k))
                 e   == IF NLt(net, Zero) THEN NDiv(n1, NNeg(net)) ELSE One
             IN  IF NLt(e, One)
                 THEN [r |-> NAdd(rel, NMul(e, net)), S |-> Blend(m, B, T, k, e)]
                 ELSE [r |-> NAdd(rel, net), S |-> Blend(m, B, T, k, One)]

Dwell(m, S, n) ==
    IF m.kind \in {"ic", "icco"} THEN InstantCapture(m, S, n) ELSE SlowCapture(m, S, n)

-----------------------------------------------------------------------------
(* Pruning: a level above the lowest that holds (thr > 0) or is about to    *)
(* release (thr <= 0) fewer electrons than the threshold is dissolved: its  *)
(* electrons extend the level below at the occupancy of that level, and the *)
(* rest of its volume goes to the level above, which keeps its electrons.   *)
(* It stays if the level below is too empty to hold its electrons there.    *)
ReleasedBy(m, S, i) ==
    NMul(NSum([j \in 1..Len(m.sp) |-> NSub(S[i].f[j], Aged(m, j, S[i].f[j]))]),
         NSub(S[i].t, Bottom(S, i)))
PruneTest(m, S, i, thr) == IF NPos(thr) THEN PlainBy(S, i) ELSE ReleasedBy(m, S, i)
Dissolves(m, S, i, thr) ==
    LET nl == PlainBy(S, i - 1)
        vl == NSub(S[i - 1].t, Bottom(S, i - 1))
        dv == NDiv(NMul(vl, PlainBy(S, i)), nl)
    IN  /\ NLt(PruneTest(m, S, i, thr), NAbs(thr))
        /\ NPos(nl)
        /\ NLeq(dv, NSub(S[i].t, Bottom(S, i)))
(* Is either condition too close to call in floating point? *)
Doubtful(m, S, i, thr) ==
    LET nl == PlainBy(S, i - 1)
        dv == NDiv(NMul(NSub(S[i - 1].t, Bottom(S, i - 1)), PlainBy(S, i)), nl)
        v  == NSub(S[i].t, Bottom(S, i))
        eps == NRat(1, 1000000)
    IN  \/ NClose(PruneTest(m, S, i, thr), NAbs(thr), eps, Zero)
        \/ /\ NLt(PruneTest(m, S, i, thr), NAbs(thr))
           /\ \/ ~NPos(nl)
              \/ NClose(dv, v, eps, Zero)
              \/ NClose(v, Zero, Zero, NRat(1, 1000000000))
Dissolve(m, S, i) ==
    LET nl  == PlainBy(S, i - 1)
        vl  == NSub(S[i - 1].t, Bottom(S, i - 1))
        b   == NAdd(S[i - 1].t, NDiv(NMul(vl, PlainBy(S, i)), nl))
        low == [t |-> b, f |-> S[i - 1].f]
        up  == S[i + 1]
        k   == NDiv(NSub(up.t, S[i].t), NSub(up.t, b))
        up2 == [t |-> up.t, f |-> [j \in 1..Len(m.sp) |->
                   IF NPos(NSub(up.t, b)) THEN NMul(up.f[j], k) ELSE up.f[j]]]
    IN  IF i = Len(S) THEN SubSeq(S, 1, i - 2) \o <<low>>
        ELSE SubSeq(S, 1, i - 2) \o <<low, up2>> \o SubSeq(S, i + 2, Len(S))
RECURSIVE PruneFrom(_, _, _, _, _)
PruneFrom(m, S, i, thr, near) ==
    IF i > Len(S) THEN [S |-> S, near |-> near]
    ELSE LET nr == near \/ Doubtful(m, S, i, thr)
         IN  IF Dissolves(m, S, i, thr) THEN PruneFrom(m, Dissolve(m, S, i), i, thr, nr)
             ELSE PruneFrom(m, S, i + 1, thr, nr)
Prune(m, S, thr) ==
    IF Len(S) <= 1 THEN [S |-> S, near |-> FALSE]
    ELSE IF ~NPos(PlainBy(S, 1)) THEN [S |-> S, near |-> FALSE]
    ELSE PruneFrom(m, S, 2, thr, FALSE)

-----------------------------------------------------------------------------
(* Bounds (T02): levels in order within the pixel, occupancies in [0, d]    *)
InBounds(m, S, tol) ==
    \A i \in 1..Len(S) :
        /\ NLeq(Bottom(S, i), NAdd(S[i].t, tol))
        /\ NLeq(S[i].t, NAdd(One, tol))
        /\ \A j \in 1..Len(m.sp) :
              /\ NLeq(NNeg(tol), S[i].f[j])
              /\ NLeq(S[i].f[j], NAdd(m.sp[j].d, NMul(m.sp[j].d, tol)))
(* The same occupancy at every depth, up to rounding: compared by electrons *)
(* held below every boundary of either state                                *)
HeldBelow(m, S, j, v) ==
    NSum([i \in 1..Len(S) |-> NMul(S[i].f[j], NMax(Zero, NSub(NMin(S[i].t, v), Bottom(S, i))))])
SameProfile(m, S, T, rel, abs) ==
    \A B \in {S, T} : \A i \in 1..Len(B) : \A j \in 1..Len(m.sp) :
        NClose(HeldBelow(m, S, j, B[i].t), HeldBelow(m, T, j, B[i].t), rel,
               NMul(abs, m.sp[j].d))
=============================================================================

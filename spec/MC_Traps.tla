------------------------------ MODULE MC_Traps ------------------------------
(***************************************************************************)
(* Every history of up to DEPTH operations of a trap manager, from empty    *)
(* traps, over exact rationals: clouds of every size of a small alphabet    *)
(* dwell, trap states are stored, restored, emptied and pruned in any       *)
(* order.  The properties T01-T04, T07 and T08 of module Traps are          *)
(* invariants; and every history is printed with the exact electrons        *)
(* returned and held, to be replayed on the real code.                      *)
(*                                                                          *)
(* CONF is a JSON file [managers, depth]; a manager is                      *)
(* [kind, ph, sp, clouds, prunes]; numbers are fractions [n, d].  A species *)
(* is given by its density d and its survival q = exp(-dwell/tau) of one    *)
(* dwell time; capture is k times as fast as release (0: instant), and a    *)
(* curve is piecewise linear.                                               *)
(***************************************************************************)
EXTENDS Traps, Json, IOUtils

Conf == JsonDeserialize(IOEnv.CONF)
Q(x) == NRat(x[1], x[2])
RECURSIVE Power(_, _)
Power(q, k) == IF k = 0 THEN One ELSE NMul(q, Power(q, k - 1))
Spec1(kind, s) ==
    CASE kind = "ic" ->
            [d |-> NDiv(Q(s.d), NSub(One, NDiv(NAdd(Q(s.va), Q(s.vb)), Two))),
             va |-> Q(s.va), vb |-> Q(s.vb), uni |-> NIsZero(Q(s.vb)), pe |-> NSub(One, Q(s.q))]
      [] kind = "sc" ->
            LET x == NDiv(NSub(One, Power(Q(s.q), s.k + 1)), NInt(s.k + 1))
            IN  [d |-> Q(s.d), pe |-> NSub(One, Q(s.q)),
                 pfe |-> IF s.k = 0 THEN One ELSE NMul(NInt(s.k), x),
                 pff |-> IF s.k = 0 THEN One ELSE NSub(One, x)]
      [] OTHER ->
            [d |-> Q(s.d), c |-> [T |-> [i \in 1..Len(s.T) |-> Q(s.T[i])], F |-> [i \in 1..Len(s.F) |-> Q(s.F[i])],
                                  A |-> [i \in 1..Len(s.A) |-> Q(s.A[i])], dt |-> One]]
Ms == TLCEval([c \in 1..Len(Conf.managers) |->
        LET x == Conf.managers[c]
        IN  [kind |-> x.kind,
             ph |-> [fw |-> Q(x.ph.fw), notch |-> Q(x.ph.notch), beta |-> Q(x.ph.beta), fef |-> Q(x.ph.fef)],
             sp |-> [j \in 1..Len(x.sp) |-> Spec1(x.kind, x.sp[j])]]])
Clouds(c) == {Q(Conf.managers[c].clouds[i]) : i \in 1..Len(Conf.managers[c].clouds)}

VARIABLES mi, S, stored, n, last, ops, rets, helds, ages
vars == <<mi, S, stored, n, last, ops, rets, helds, ages>>
M == Ms[mi]
C == Conf.managers[mi]

Init ==
    /\ mi \in 1..Len(Ms)
    /\ S = NoLevels /\ stored = NoLevels /\ n = 0
    /\ last = [op |-> "x", r |-> Zero, x |-> Zero, before |-> NoLevels, near |-> FALSE]
    /\ ops = "" /\ rets = "" /\ helds = ""
    /\ ages = << >>

(* A history of full fills: ages[i] = [v, k]: since it last filled to depth *)
(* v and no further, k dwell times ago; or NONE once a cloud was too small  *)
(* to fill what it reached, or states were restored or pruned               *)
None == <<[v |-> NInt(-1), k |-> -1]>>
Aged1(a) == [i \in 1..Len(a) |-> [a[i] EXCEPT !.k = a[i].k + 1]]
NextAges(x, w) ==
    IF ages = None THEN None
    ELSE LET v == Vol(M.ph, NAdd(x, NSub(Held(M, S), Held(M, AgedAbove(M, S, 0)))))
             partial == \E i \in 1..Len(w.S) : \E j \in 1..Len(M.sp) :
                            NLeq(w.S[i].t, v) /\ ~NEq(w.S[i].f[j], M.sp[j].d)
         IN  IF partial THEN None
             ELSE IF NIsZero(v) THEN Aged1(ages)
             ELSE <<[v |-> v, k |-> 0]>> \o SelectSeq(Aged1(ages), LAMBDA a : NLt(v, a.v))

Do(op, x, T, r, near, name) ==
    /\ S' = T
    /\ last' = [op |-> op, r |-> r, x |-> x, before |-> S, near |-> near]
    /\ n' = n + 1
    /\ ops' = ops \o " " \o name
    /\ rets' = rets \o " " \o NStr(r)
    /\ helds' = helds \o " " \o NStr(Plain(T))
    /\ UNCHANGED mi

CloudDwells ==
    \E i \in 1..Len(C.clouds) :
        LET x == Q(C.clouds[i])
            w == Dwell(M, S, x)
        IN  Do("t", x, w.S, w.r, FALSE, "t" \o ToString(i)) /\ UNCHANGED stored /\ ages' = NextAges(x, w)
Store == Do("s", Zero, S, Zero, FALSE, "s") /\ stored' = S /\ UNCHANGED ages
Restore == stored # NoLevels /\ Do("r", Zero, stored, Zero, FALSE, "r") /\ UNCHANGED stored /\ ages' = None
Reset == S # NoLevels /\ Do("x", Zero, NoLevels, Zero, FALSE, "x") /\ UNCHANGED stored /\ ages' = << >>
PruneLevels ==
    \E i \in 1..Len(C.prunes) :
        LET p == Prune(M, S, Q(C.prunes[i]))
        IN  /\ Len(S) > 1
            /\ Do("p", Q(C.prunes[i]), p.S, Zero, p.near, "p" \o ToString(i) \o (IF p.near THEN "~" ELSE "")) /\ UNCHANGED stored
            /\ ages' = IF p.S = S THEN ages ELSE None

Next == n < Conf.depth /\ (CloudDwells \/ Store \/ Restore \/ Reset \/ PruneLevels)
Spec == Init /\ [][Next]_vars

Emit == n = Conf.depth => PrintT(<<"V", ToString(mi), ops, rets, helds>>)

-----------------------------------------------------------------------------
(* T02 *)
Bounds == InBounds(M, S, Zero)
Ordered == \A i \in 1..Len(S) : NLt(Bottom(S, i), S[i].t)
NeverMoreThanThere == last.op = "t" => NLeq(NNeg(NMax(last.x, Zero)), last.r)
(* T01 *)
Conserved == last.op = "t" => NEq(last.r, NSub(Held(M, last.before), Held(M, S)))
UniformM == M.kind = "ic" => \A j \in 1..Len(M.sp) : M.sp[j].uni
(* T01, T07 *)
PruneConserves == last.op = "p" => NEq(Plain(last.before), Plain(S))
PruneSimplifies == last.op = "p" => Len(S) <= Len(last.before)
PruneHarmless ==   \* what dissolved was below the threshold, so the profile moved by no more
    last.op = "p" =>
        \A j \in 1..Len(M.sp) : \A i \in 1..Len(last.before) :
            NLeq(NAbs(NSub(HeldBelow(M, S, j, last.before[i].t), HeldBelow(M, last.before, j, last.before[i].t))),
                 IF NPos(last.x) THEN NMul(NInt(Len(last.before)), last.x) ELSE Held(M, S))

(* T03, T04: outcomes depend only on the occupancy at each depth: splitting  *)
(* any level in two changes nothing                                          *)
SameOutcome(w1, w2, f(_)) ==
    /\ NEq(w1.r, w2.r)
    /\ SameProfile(M, w1.S, f(w2.S), Zero, Zero)
Middle(T, i) == NDiv(NAdd(Bottom(T, i), T[i].t), Two)
Id(T) == T
SplitInvariant ==
    \A i \in 1..Len(S) : \A x \in Clouds(mi) :
        SameOutcome(Dwell(M, S, x), Dwell(M, SplitAt(M, S, Middle(S, i)), x), Id)

(* T08: order of species, splitting a species, species of no density         *)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
MapF(T, g(_)) == [i \in 1..Len(T) |-> [t |-> T[i].t, f |-> g(T[i].f)]]
RevM == [M EXCEPT !.sp = Rev(M.sp)]
RevS(T) == MapF(T, Rev)
HalfM == [M EXCEPT !.sp = [j \in 1..(2 * Len(M.sp)) |->
            LET s == M.sp[((j - 1) % Len(M.sp)) + 1] IN [s EXCEPT !.d = NDiv(s.d, Two)]]]
Halve(f) == [j \in 1..(2 * Len(f)) |-> NDiv(f[((j - 1) % Len(f)) + 1], Two)]
Whole(f) == [j \in 1..(Len(f) \div 2) |-> NAdd(f[j], f[j + Len(f) \div 2])]
HalfS(T) == MapF(T, Halve)
WholeS(T) == MapF(T, Whole)
ZeroM == [M EXCEPT !.sp = Append(M.sp, [M.sp[1] EXCEPT !.d = Zero])]
AddZero(f) == Append(f, Zero)
DropZero(f) == SubSeq(f, 1, Len(f) - 1)
ZeroS(T) == MapF(T, AddZero)
DropS(T) == MapF(T, DropZero)
Mixing ==
    \A x \in Clouds(mi) :
        LET w == Dwell(M, S, x)
        IN  /\ SameOutcome(w, Dwell(RevM, RevS(S), x), RevS)
            /\ SameOutcome(w, Dwell(HalfM, HalfS(S), x), WholeS)
            /\ SameOutcome(w, Dwell(ZeroM, ZeroS(S), x), DropS)

(* T03, T05: after k dwell times without a refill, instant-capture traps     *)
(* hold what survives k dwell times                                          *)
RECURSIVE After(_, _, _)
After(j, f, k) == IF k = 0 THEN f ELSE After(j, Aged(M, j, f), k - 1)
HistoryKnown ==
    (M.kind \in {"ic", "icco"} /\ ages # None) =>
        /\ \A i \in 1..Len(S) :
              LET A == {a \in 1..Len(ages) : NLeq(S[i].t, ages[a].v)}
              IN  IF A = {} THEN \A j \in 1..Len(M.sp) : NIsZero(S[i].f[j])
                  ELSE LET a == CHOOSE x \in A : \A y \in A : x <= y
                       IN  \A j \in 1..Len(M.sp) :
                              NEq(S[i].f[j],
                                  IF M.kind = "ic" THEN NMul(M.sp[j].d, Power(NSub(One, M.sp[j].pe), ages[a].k))
                                  ELSE NMul(M.sp[j].d, CFill(M.sp[j].c, NInt(ages[a].k))))
=============================================================================

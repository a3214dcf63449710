----------------------------- MODULE TraceUtil ------------------------------
(***************************************************************************)
(* Conformance of the functions that the state machine is made of, one     *)
(* recorded function per line of the trace file:                           *)
(*   vol       volumes v of clouds of n electrons in a well        (W01)   *)
(*   exposed   exposure of a surface species between volumes       (T06)   *)
(*   decay     fill fraction of a single-timescale species         (T03-4) *)
(*   curve     fill fraction of a continuum species at times t,    (T05)   *)
(*             times read back from them, and their tables                 *)
(*   soak      the same after a dwell within a cloud               (T05)   *)
(*   transpose, txt, print, time, load                              (U01)   *)
(*   setting   whether settings are taken or rejected              (C10)   *)
(***************************************************************************)
EXTENDS Traps, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE line
Init == line \in 1..Len(Lines)
Next == UNCHANGED line
Spec == Init /\ [][Next]_line
X == Lines[line]

Eps == NRat(1, 1000000000)
Same(x, y) == NClose(x, y, Eps, NMul(Eps, Eps))
Near(x, y, e) == NClose(x, y, e, e)
All(n, P(_)) == \A k \in 1..n : P(k)
Micro == NRat(1, 1000000)

(* W01 *)
VolOK ==
    LET p == X.phase
        N == Len(X.n)
    IN  {<<"value", k>> : k \in {k \in 1..N : ~NClose(X.v[k], Vol(p, X.n[k]), Eps, Eps)}}
        \cup {<<"range", k>> : k \in {k \in 1..N : ~(NLeq(Zero, X.v[k]) /\ NLeq(X.v[k], NAdd(One, NMul(Eps, Micro))))}}
        (* the first electron takes up what it does, and nothing below the notch but that *)
        \cup {<<"notch", k>> : k \in {k \in 1..N : NLeq(X.n[k], NMax(Zero, p.notch)) /\ ~NEq(X.v[k], p.fef)}}
        \cup {<<"full", k>> : k \in {k \in 1..N : NLeq(p.fw, X.n[k]) /\
                 ~(IF NIsZero(p.fef) THEN NEq(X.v[k], One) ELSE Same(X.v[k], One))}}
        (* n is sorted *)
        \cup {<<"monotone", k>> : k \in {k \in 2..N : ~NLeq(X.v[k - 1], NAdd(X.v[k], NMul(Eps, Micro)))}}

(* T06: pairs ab[k] = <<low, high>>, exposures v[k] per unit of volume, and   *)
(* adjoining ranges lo < mid < hi at k, k+1, k+2 where chain[k] = 1           *)
Surface == [va |-> X.va, vb |-> X.vb]
RampAt(x) ==
    IF NLeq(X.vb, x) THEN One ELSE IF NLeq(x, X.va) THEN Zero ELSE NDiv(NSub(x, X.va), NSub(X.vb, X.va))
Amount(k) == NMul(X.v[k], NSub(X.ab[k][2], X.ab[k][1]))
ExposedOK ==
    {<<"value", k>> : k \in {k \in 1..Len(X.v) :
        LET lo == X.ab[k][1]
            hi == X.ab[k][2]
            w == IF NLt(lo, hi) THEN NSub(Exposed(Surface, hi), Exposed(Surface, lo)) ELSE Zero
        IN  ~(IF NLt(lo, hi) THEN NClose(Amount(k), w, Eps, Eps)
              (* at a depth where the ramp jumps, either value will do *)
              ELSE NFinite(X.v[k]) /\ (NEq(X.va, X.vb) \/ NClose(X.v[k], RampAt(lo), Eps, Eps)))}}
    \cup {<<"range", k>> : k \in {k \in 1..Len(X.v) : ~(NLeq(NNeg(Micro), X.v[k]) /\ NLeq(X.v[k], NAdd(One, Micro)))}}
    \cup {<<"additive", k>> : k \in {k \in 1..Len(X.v) :
        X.chain[k] = 1 /\ ~NClose(NAdd(Amount(k), Amount(k + 1)), Amount(k + 2), Eps, Eps)}}

(* T03, T04 *)
DecayOK ==
    {<<"value", k>> : k \in {k \in 1..Len(X.v) : ~NClose(X.v[k], NExp(NNeg(NDiv(X.t[k], X.tau))), Eps, Eps)}}

(* T05: t increasing; ff[k] at t[k], te[k] read back from ff[k] (te[k] < 0:    *)
(* not asked for); tabulated values ft[k] at t[k], tt[k] read back from ft[k]  *)
Narrow == NLeq(X.c.sig, NRat(1, 50))
Wide == NRat(1, 1000)
CurveOK ==
    LET N == Len(X.t)
    IN  {<<"value", k>> : k \in {k \in 1..N : ~NClose(X.ff[k], CExact(X.c, X.t[k]), NMul(Micro, NInt(5)), NMul(Eps, Micro))}}
        \cup {<<"range", k>> : k \in {k \in 1..N : ~(NLeq(Zero, X.ff[k]) /\ NLeq(X.ff[k], NAdd(One, Micro)))}}
        \cup {<<"monotone", k>> : k \in {k \in 2..N : NLt(X.t[k - 1], X.t[k]) /\ ~NLeq(X.ff[k], NAdd(X.ff[k - 1], Eps))}}
        \cup {<<"inverse", k>> : k \in {k \in 1..N : NLeq(Zero, X.te[k]) /\ ~NClose(X.te[k], X.t[k], Wide, Micro)}}
        \cup {<<"table", k>> : k \in {k \in 1..N : X.tab = 1 /\ ~NClose(X.ft[k], CFill(X.c, X.t[k]), Micro, Micro)}}
        \cup {<<"tableinverse", k>> : k \in {k \in 1..N : X.tab = 1 /\ NLeq(Zero, X.tt[k]) /\ ~NClose(X.tt[k], X.t[k], Wide, Micro)}}
        \cup {<<"tablemonotone", k>> : k \in {k \in 2..N : X.tab = 1 /\ ~NLeq(X.ft[k], NAdd(X.ft[k - 1], Eps))}}
        \cup {<<"narrow", k>> : k \in {k \in 1..N : Narrow /\
                 ~NClose(X.ff[k], NExp(NNeg(NDiv(X.t[k], X.c.mu))), Zero, NMul(NInt(2), NMul(X.c.sig, X.c.sig)))}}
(* sf[k] after a dwell within a cloud of traps last filled a time t[k] ago *)
SoakOK ==
    LET N == Len(X.t)
    IN  {<<"value", k>> : k \in {k \in 1..N : ~NClose(X.sf[k], CExactAfter(X.c, X.t[k]), NMul(Micro, NInt(5)), Micro)}}
        \cup {<<"range", k>> : k \in {k \in 1..N : ~(NLeq(Zero, X.sf[k]) /\ NLeq(X.sf[k], NAdd(One, Micro)))}}
        \cup {<<"table", k>> : k \in {k \in 1..N : X.tab = 1 /\ ~NClose(X.st[k], CAfter(X.c, X.t[k]), Micro, Micro)}}

(* U01 *)
TransposeOK ==
    LET R == Len(X.im)
        C == Len(X.im[1])
        Flip == [j \in 1..C |-> [i \in 1..R |-> X.im[i][j]]]
    IN  (IF X.t = Flip THEN {} ELSE {<<"transpose", 0>>})
        \cup (IF X.tt = X.im THEN {} ELSE {<<"twice", 0>>})
        \cup (IF X.input = X.im THEN {} ELSE {<<"input", 0>>})
        \cup (IF X.flat = [k \in 1..(R * C) |-> X.im[((k - 1) \div C) + 1][((k - 1) % C) + 1]] THEN {} ELSE {<<"flat", 0>>})
TxtOK ==
    LET R == Len(X.im)
        C == Len(X.im[1])
        Shape(A) == Len(A) = R /\ \A i \in 1..R : Len(A[i]) = C
    IN  (IF Shape(X.a) /\ Shape(X.b) THEN {} ELSE {<<"shape", 0>>})
        \cup (IF X.a = X.b THEN {} ELSE {<<"again", 0>>})
        \cup (IF Shape(X.a) /\ \A i \in 1..R, j \in 1..C :
                   NClose(X.a[i][j], X.im[i][j], NMul(Eps, NRat(1, 1000000)), NRat(1, 1990000)) THEN {} ELSE {<<"values", 0>>})
(* Printed: what there is between the numbers (n), and the numbers, which are *)
(* given to six digits; a row is one array, "cols" of which make a line       *)
RECURSIVE Join(_, _, _)
Join(n, x, sep) == IF n = 0 THEN "" ELSE IF n = 1 THEN x ELSE x \o sep \o Join(n - 1, x, sep)
Row(n) == "[" \o Join(n, "n", ", ") \o "]"
Table(rows, n) == "[" \o Join(rows, Row(n), "\n ") \o "]"
PrintOK ==
    LET flat == [k \in 1..(Len(X.im) * Len(X.im[1])) |-> X.im[((k - 1) \div Len(X.im[1])) + 1][((k - 1) % Len(X.im[1])) + 1]]
        want == CASE X.form = "row" -> Row(Len(flat))
                  [] X.form = "cols" -> Table(Len(flat) \div X.cols, X.cols)
                  [] X.form = "image" -> Table(Len(X.im), Len(X.im[1]))
    IN  (IF X.form_of = want \o "\n" THEN {} ELSE {<<"form", 0>>})
        \cup (IF Len(X.values) = Len(flat)
                 /\ \A k \in 1..Len(flat) : NClose(X.values[k], flat[k], NMul(NInt(6), Micro), NMul(Eps, NMul(Eps, NMul(Eps, Eps))))
              THEN {} ELSE {<<"values", 0>>})
        \cup (IF X.input = X.im THEN {} ELSE {<<"changed", 0>>})
(* the difference of two clock readings, in seconds and microseconds *)
TimeOK ==
    LET us(a) == NAdd(NMul(a[1], NInt(1000000)), a[2])
        w == NDiv(NSub(us(<<X.t[3], X.t[4]>>), us(<<X.t[1], X.t[2]>>)), NInt(1000000))
    IN  IF NClose(X.v, w, Eps, NMul(NInt(100), Eps)) THEN {} ELSE {<<"elapsed", 0>>}

(* a file of `there` (is there one?), `head` numbers of a header [rows, columns], *)
(* and the numbers that follow it; it loads if they are enough, in their order *)
LoadOK ==
    LET good == X.there = 1 /\ X.head = 2 /\ X.rows * X.cols <= Len(X.values)
        want == [i \in 1..X.rows |-> [j \in 1..X.cols |-> X.values[(i - 1) * X.cols + j]]]
    IN  IF good # (X.taken = 1) THEN {<<IF good THEN "rejected" ELSE "taken", 0>>}
        ELSE IF good /\ X.im # want THEN {<<"values", 0>>} ELSE {}

(* an image is saved where there is room for it, and it is an error where there is not *)
SaveOK == IF X.room = X.taken THEN {} ELSE {<<IF X.room = 1 THEN "rejected" ELSE "lost", 0>>}

(* C10: detector and readout have the same phases, each with its share of the   *)
(* traps; pumping takes two steps per phase, and one row at a time; the window   *)
(* is part of the image, and no number of passes, pixels or pumps is negative    *)
Takes(d) ==
    /\ 0 <= d.first /\ d.first <= d.last /\ d.last <= d.lines
    /\ d.express >= 0 /\ d.offset >= 0 /\ d.prescan >= 0
    /\ d.overscan = -1 \/ d.overscan >= 1
    /\ d.pumping = 1 => d.pumps >= 1
    /\ d.phases = d.shares
    /\ IF d.pumping = 1
       THEN d.steps % 2 = 0 /\ d.phases * 2 = d.steps /\ d.last - d.first = 1
       ELSE d.phases = d.steps
SettingOK ==
    LET good == \A k \in 1..Len(X.directions) : Takes(X.directions[k])
        empty == \E k \in 1..Len(X.directions) : X.directions[k].first = X.directions[k].last
    IN  IF good # (X.taken = 1) THEN {<<IF good THEN "rejected" ELSE "taken", 0>>}
        ELSE IF good /\ empty /\ X.same = 0 THEN {<<"changed", 0>>} ELSE {}

Bad ==
    CASE X.kind = "vol" -> VolOK
      [] X.kind = "exposed" -> ExposedOK
      [] X.kind = "decay" -> DecayOK
      [] X.kind = "curve" -> CurveOK
      [] X.kind = "soak" -> SoakOK
      [] X.kind = "transpose" -> TransposeOK
      [] X.kind = "txt" -> TxtOK
      [] X.kind = "print" -> PrintOK
      [] X.kind = "time" -> TimeOK
      [] X.kind = "load" -> LoadOK
      [] X.kind = "save" -> SaveOK
      [] X.kind = "setting" -> SettingOK
Judge == PrintT(<<"V", X.id, IF Bad = {} THEN "accept" ELSE "reject " \o X.kind \o ToString(Bad)>>)
=============================================================================

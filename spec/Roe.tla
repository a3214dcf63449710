-------------------------------- MODULE Roe ---------------------------------
(***************************************************************************)
(* The readout electronics: how many transfers each pixel makes, how they  *)
(* are grouped into express passes, when trap states are stored, and what  *)
(* each clock step does to each phase (properties R01-R04).                *)
(*                                                                         *)
(* r = [type, dwell, prescan, overscan, ebc, eft, fra, intm, npumps]:      *)
(* type is 0 standard, 1 charge injection, 2 trap pumping; overscan is the *)
(* first overscan pixel (counting from 1) or -1; ebc and eft say whether   *)
(* traps are emptied between columns and for first transfers.              *)
(* Pixels and passes are counted from 0, as in the implementation;         *)
(* matrices are functions [passes -> [pixels -> Num]].                     *)
(***************************************************************************)
EXTENDS Num, FiniteSets

NSteps(r) == Len(r.dwell)
NPhases(r) == IF r.type = 2 THEN NSteps(r) \div 2 ELSE NSteps(r)

-----------------------------------------------------------------------------
(* R01: the number of transfers each pixel makes: its distance from readout *)
(* in pixels, no more than the physical pixels for overscan                 *)
Distance(r, woff, i) ==
    r.prescan + (IF r.overscan >= 0 THEN IMin(i + 1 + woff, r.overscan - 1) ELSE i + 1 + woff)

(* Passes of `mult` transfers each along n pixels: pass k handles transfers  *)
(* k*mult .. (k+1)*mult of every pixel that makes as many                    *)
Mult(intm, n, passes) ==
    LET x == NDiv(NInt(n), NInt(passes)) IN IF intm = 1 THEN NCeil(x) ELSE x
Ramp(mult, k, i) == NClamp(NSub(NInt(i + 1), NMul(NInt(k), mult)), Zero, mult)
(* A multiplier that is nothing but rounding noise (doubles only) *)
DustyRamp(mult, k, i) ==
    LET x == NSub(NInt(i + 1), NMul(NInt(k), mult))
    IN  ~NIsZero(x) /\ NClose(x, Zero, Zero, NRat(1, 100000000))

Passes(express, n) == IF express = 0 THEN n ELSE IMin(express, n)

(* The schedule of n transfers in p passes: [passes, E] with E over pixels    *)
(* 0..n-1 as if all of them were in the image                                 *)
Schedule(r, n, p) ==
    IF r.eft = 0
    THEN [passes |-> p,
          E |-> [k \in 0..(p - 1) |-> [i \in 0..(n - 1) |-> Ramp(Mult(r.intm, n, p), k, i)]]]
    ELSE IF p >= n
    (* every transfer on its own: the furthest pixels first, so that the      *)
    (* first transfer of each pixel sees traps no other packet has visited    *)
    THEN [passes |-> p,
          E |-> [k \in 0..(p - 1) |->
                    [i \in 0..(n - 1) |-> Ramp(Mult(r.intm, n, p), p - 1 - k, i)]]]
    (* first transfers on their own, one per pass; the other transfers        *)
    (* follow in the pass whose leading pixel comes just before them          *)
    ELSE LET mult == Mult(r.intm, n - 1, p)
             nz == TLCEval([o \in 0..(p - 1) |-> Cardinality({i \in 0..(n - 2) : NPos(Ramp(mult, o, i))})])
             later(k, i) == NSum([o \in 1..p |->
                               IF nz[o - 1] = k /\ i >= 1 THEN Ramp(mult, o - 1, i - 1) ELSE Zero])
         IN  [passes |-> n,
              E |-> [k \in 0..(n - 1) |-> [i \in 0..(n - 1) |->
                        NAdd(IF i = n - 1 - k THEN One ELSE Zero, later(k, i))]]]

(* Keep only the first T transfers of a pixel, in the order of the passes   *)
Trim(E, p, i, T) ==
    [k \in 0..(p - 1) |->
        LET before == NSum([j \in 1..k |-> E[j - 1][i]])
        IN  NClamp(NSub(T, before), Zero, E[k][i])]

StandardMatrix(r, rows, express, woff) ==
    LET off == woff + r.prescan
        n   == rows + off
        s   == Schedule(r, n, Passes(express, n))
        t   == TLCEval([i \in 0..(rows - 1) |->
                  IF Distance(r, woff, i) < i + 1 + off
                  THEN Trim(s.E, s.passes, i + off, NInt(IMax(0, Distance(r, woff, i))))
                  ELSE [k \in 0..(s.passes - 1) |-> s.E[k][i + off]]])
    IN  [passes |-> s.passes,
         E |-> [k \in 0..(s.passes - 1) |-> [i \in 0..(rows - 1) |-> t[i][k]]]]

(* Charge injection: every packet is clocked through all pixels *)
InjectionMatrix(r, rows, express, woff) ==
    LET n == IF r.overscan >= 0 THEN IMax(0, r.prescan + r.overscan - 1) ELSE r.prescan + woff + rows
        p == IMax(1, Passes(express, n))
        m == Mult(r.intm, n, p)
    IN  [passes |-> p,
         E |-> [k \in 0..(p - 1) |-> [i \in 0..(rows - 1) |->
                   NClamp(NSub(NInt(n), NMul(NInt(k), m)), Zero, m)]]]

(* Trap pumping: the pump cycles, in passes without gaps *)
PumpingMatrix(r, rows, express) ==
    LET p == Passes(express, r.npumps)
        s == Schedule(r, r.npumps, p)
        c == TLCEval([k \in 1..s.passes |-> s.E[k - 1][r.npumps - 1]])
        nz == SelectSeq(c, LAMBDA x : ~NIsZero(x))
        few == r.eft = 1 /\ p < r.npumps
        q == IF few THEN p + 1 ELSE s.passes
    IN  [passes |-> q,
         E |-> [k \in 0..(q - 1) |-> [i \in 0..(rows - 1) |->
                  IF few THEN (IF k + 1 <= Len(nz) THEN nz[k + 1] ELSE Zero) ELSE c[k + 1]]]]

Matrix(r, rows, express, woff) == TLCEval(
    IF r.type = 1 THEN InjectionMatrix(r, rows, express, woff)
    ELSE IF r.type = 2 THEN PumpingMatrix(r, rows, express)
    ELSE StandardMatrix(r, rows, express, woff))

(* Does rounding noise decide which transfers happen?  Never over rationals *)
Dusty(r, rows, express, woff) ==
    LET n == IF r.type = 2 THEN r.npumps ELSE rows + woff + r.prescan
        p == Passes(express, n)
        q == IF r.eft = 1 /\ p < n THEN n - 1 ELSE n
        mult == Mult(r.intm, q, p)
    IN  r.type # 1 /\ q > 0 /\ \E k \in 0..(p - 1), i \in 0..(q - 1) : DustyRamp(mult, k, i)

(* The same where the last passes of overscan pixels are trimmed *)
DustyTrim(r, rows, express, woff) ==
    /\ r.type = 0 /\ r.overscan >= 0
    /\ LET off == woff + r.prescan
           n   == rows + off
           s   == Schedule(r, n, Passes(express, n))
           m   == Mult(r.intm, IF r.eft = 1 /\ Passes(express, n) < n THEN n - 1 ELSE n, Passes(express, n))
       IN  /\ ~NEq(NCeil(NMul(m, NInt(1024))), NMul(m, NInt(1024)))
           /\ \E i \in 0..(rows - 1) : \E k \in 1..s.passes :
                 /\ Distance(r, woff, i) < i + 1 + off
                 /\ NClose(NSub(NInt(IMax(0, Distance(r, woff, i))),
                                NSum([j \in 1..k |-> s.E[j - 1][i + off]])),
                           Zero, Zero, NRat(1, 100000000))

-----------------------------------------------------------------------------
(* R02: after which pixel of pass k the trap states are stored: just before *)
(* the first pixel of the next pass; nothing is stored if that is the first  *)
(* pixel.  A set, with at most one element but for pumping.                   *)
FirstOf(S, default) == IF S = {} THEN default ELSE CHOOSE x \in S : \A y \in S : x <= y
StoreAfter(r, M, rows, k) ==
    IF k >= M.passes - 1 THEN {}
    ELSE IF r.type = 2 THEN {i \in 0..(rows - 1) : ~NIsZero(M.E[k][i])}
    ELSE IF r.type = 1 \/ r.eft = 1 THEN {}
    ELSE IF NPos(M.E[k + 1][0]) THEN {}
    ELSE {FirstOf({i \in 0..(rows - 2) : NPos(M.E[k + 1][i + 1])}, rows - 1)}

-----------------------------------------------------------------------------
(* R04: the clock sequence.  In pumping the high phase goes to and fro: at   *)
(* positions n..2n-1 it holds the packet of the next pixel.                  *)
LoopStep(r, s) == IAbs(((s + NPhases(r)) % (2 * NPhases(r))) - NPhases(r))
HighPhase(r, s) == LoopStep(r, s) % NPhases(r)
PacketAt(r, s) == IF LoopStep(r, s) >= NPhases(r) THEN 1 ELSE 0

(* Distances, in half phases, from phase i of pixel 0 to the high phases of   *)
(* pixels -1, 0, 1; each of these holds the packet of a pixel                 *)
Line(r, pixel, i) == pixel * NPhases(r) + (NPhases(r) - 1 - i)
Gap(r, s, i, q) == IAbs(Line(r, 0, i) - Line(r, q, HighPhase(r, s)))
Nearest(r, s, i) ==
    {q \in -1..1 : \A x \in -1..1 : Gap(r, s, i, q) <= Gap(r, s, i, x)}
Away(r, s, i) == IF r.fra = 1 /\ r.type # 2 /\ i > HighPhase(r, s) THEN 1 ELSE 0
CaptureFrom(r, s, i) == IF i = HighPhase(r, s) THEN {PacketAt(r, s)} ELSE {}
ReleaseTo(r, s, i) == {q + PacketAt(r, s) + Away(r, s, i) : q \in Nearest(r, s, i)}
ReleaseShare(r, s, i) == NDiv(One, NInt(Cardinality(ReleaseTo(r, s, i))))
=============================================================================

------------------------------ MODULE TraceRoe ------------------------------
(***************************************************************************)
(* Conformance of the schedules and clock sequences the real code builds:  *)
(* every line of the trace file is a setting of the readout electronics    *)
(* with the express matrix E, the store matrix and the clock sequence that *)
(* the code built for it.  Verdicts:                                       *)
(*   total    multipliers non-negative, adding up to the transfers (R01)   *)
(*   matrix   the schedule of module Roe                    (R01-R03)      *)
(*   store    trap states stored where passes resume from   (R02, R03)     *)
(*   clock    the clock sequence                            (R04)          *)
(***************************************************************************)
EXTENDS Roe, SequencesExt, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE line
Init == line \in 1..Len(Lines)
Next == UNCHANGED line
Spec == Init /\ [][Next]_line

X == Lines[line]
R == X.roe
Dust == NRat(1, 100000000)
Tol == NRat(1, 1000000000)
Same(x, y) == NClose(x, y, Tol, Dust)
(* the code's matrix: pass k (from 0), pixel i (from 0) *)
Seen(k, i) == X.E[k * X.rows + i + 1]
Stored(k, i) == X.store[k * X.rows + i + 1]
Shape(M) == X.passes = M.passes /\ Len(X.E) = M.passes * X.rows /\ Len(X.store) = M.passes * X.rows
IsDust(x) == NClose(x, Zero, Zero, Dust)

Transfers ==
    IF R.type = 2 THEN [i \in 0..(X.rows - 1) |-> R.npumps]
    ELSE IF R.type = 1
    THEN [i \in 0..(X.rows - 1) |-> IF R.overscan >= 0 THEN IMax(0, R.prescan + R.overscan - 1)
                                    ELSE R.prescan + X.offset + X.rows]
    ELSE [i \in 0..(X.rows - 1) |-> IMax(0, Distance(R, X.offset, i))]
TotalOK ==
    /\ Len(X.E) = X.passes * X.rows
    /\ \A k \in 0..(X.passes - 1), i \in 0..(X.rows - 1) : NLeq(Zero, Seen(k, i))
    /\ \A i \in 0..(X.rows - 1) :
          Same(NSum([k \in 1..X.passes |-> Seen(k - 1, i)]), NInt(Transfers[i]))
MatrixOK(M) == \A k \in 0..(M.passes - 1), i \in 0..(X.rows - 1) : Same(Seen(k, i), M.E[k][i])
Latest(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : y <= x
(* What matters is the last state stored in a pass, by a pixel that moves     *)
StoreOK(M) ==
    \A k \in 0..(M.passes - 2) :
        Latest({i \in 0..(X.rows - 1) : Stored(k, i) = 1 /\ NPos(Seen(k, i))})
        = Latest({i \in StoreAfter(R, M, X.rows, k) : NPos(Seen(k, i))})
(* Pumping several pixels is not defined: only one is active *)
ClockOK ==
    /\ X.steps = NSteps(R) /\ X.nphases = NPhases(R)
    /\ \A s \in 1..X.steps, p \in 1..X.nphases :
          LET c == X.clock[s][p]
              to == ReleaseTo(R, s - 1, p - 1)
          IN  /\ ToSet(c.cap) = CaptureFrom(R, s - 1, p - 1)
              /\ Len(c.cap) = Cardinality(ToSet(c.cap))
              /\ ToSet(c.rel) = to /\ Len(c.rel) = Cardinality(to)
              /\ \A q \in 1..Len(c.frac) : NEq(c.frac[q], ReleaseShare(R, s - 1, p - 1))
Bad ==
    LET M == Matrix(R, X.rows, X.express, X.offset)
        unsure == Dusty(R, X.rows, X.express, X.offset) \/ DustyTrim(R, X.rows, X.express, X.offset)
    IN  (IF TotalOK THEN {} ELSE {"total"})
        \cup (IF Shape(M) THEN (IF MatrixOK(M) THEN {} ELSE {"matrix"})
                               \cup (IF unsure \/ StoreOK(M) THEN {} ELSE {"store"})
              ELSE {"matrix"})
        \cup (IF ClockOK THEN {} ELSE {"clock"})
Judge == PrintT(<<"V", X.id, IF Bad = {} THEN "accept" ELSE "reject " \o ToString(Bad)>>)
=============================================================================

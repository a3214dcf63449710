------------------------------ MODULE TraceAcs ------------------------------
(***************************************************************************)
(* The objects that arcticpy.CTI_model_for_HST_ACS returned for a date      *)
(* (property Y02): each line of the trace file has the date and what was    *)
(* found in them.                                                          *)
(***************************************************************************)
EXTENDS Acs, Sequences, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE line
Init == line \in 1..Len(Lines)
Next == UNCHANGED line
Spec == Init /\ [][Next]_line
X == Lines[line]
Eps == NRat(1, 1000000000)
Same(x, y) == NClose(x, y, Eps, NMul(Eps, Eps))

(* One clock step per transfer, traps emptied between columns *)
Readout(r) ==
    /\ r.type = 0 /\ Len(r.dwell) = 1 /\ Same(r.dwell[1], One)
    /\ r.ebc = 1 /\ r.eft = 0 /\ r.fra = 1 /\ r.intm = 0
    /\ r.prescan = 0
Detector(x) ==
    /\ Len(x.fw) = 1 /\ Same(x.fw[1], AcsPhase.fw) /\ Same(x.notch[1], AcsPhase.notch)
    /\ Same(x.beta[1], AcsPhase.beta) /\ Same(x.fef[1], AcsPhase.fef)
    /\ Len(x.frac) = 1 /\ Same(x.frac[1], One)
Bad ==
    (IF Readout(X.P.roe) /\ X.P.roe.overscan = AcsOverscan THEN {} ELSE {"parallel readout"})
    \cup (IF Readout(X.S.roe) /\ X.S.roe.length = AcsPrescan /\ Same(X.S.roe.noise, AcsReadNoise) THEN {} ELSE {"serial readout"})
    \cup (IF Detector(X.P.ccd) THEN {} ELSE {"parallel detector"})
    \cup (IF Detector(X.S.ccd) THEN {} ELSE {"serial detector"})
    \cup (IF X.none = 1 THEN {} ELSE {"serial traps"})
    \cup (IF Len(X.traps) = 3 /\ \A j \in 1..3 : X.kinds[j] = "TrapInstantCapture" THEN {} ELSE {"kinds of traps"})
    \cup (IF Len(X.traps) = 3
          THEN UNION {LET w == AcsTraps(X.date)[j]
                          t == X.traps[j]
                      IN  (IF Same(t.d, w.d) THEN {} ELSE {"density"})
                          \cup (IF Same(t.tau, w.tau) THEN {} ELSE {"release time"})
                          \cup (IF Same(t.va, w.va) /\ Same(t.vb, w.vb) THEN {} ELSE {"surface"}) : j \in 1..3}
          ELSE {})
Judge == PrintT(<<"V", X.id, IF Bad = {} THEN "accept" ELSE "reject acs " \o ToString(Bad)>>)
=============================================================================

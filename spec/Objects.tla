------------------------------- MODULE Objects -------------------------------
(***************************************************************************)
(* The objects of the Python package that describe pixels, readout and      *)
(* traps (properties Y01, Y06), as records of what was given to make them:  *)
(* what is not given has its default.                                       *)
(***************************************************************************)
EXTENDS Bounce

PyPhase(g) ==
    [fw |-> Or(g, "full_well_depth", NInt(10000)), notch |-> Or(g, "well_notch_depth", Zero),
     beta |-> Or(g, "well_fill_power", One), fef |-> Or(g, "first_electron_fill", Zero)]
PyCcd(g) ==
    [phases |-> IF "full_well_depth" \in DOMAIN g THEN <<PyPhase(g)>>
                ELSE LET l == Or(g, "phases", <<[none |-> 0]>>) IN [p \in 1..Len(l) |-> PyPhase(l[p])],
     frac |-> Or(g, "fraction_of_traps_per_phase", <<One>>)]

StandardRoe(g) ==
    [type |-> 0, dwell |-> Or(g, "dwell_times", <<One>>), prescan |-> Or(g, "prescan_offset", 0),
     overscan |-> Or(g, "overscan_start", -1), ebc |-> Or(g, "empty_traps_between_columns", 1),
     eft |-> Or(g, "empty_traps_for_first_transfers", 0), fra |-> Or(g, "force_release_away_from_readout", 1),
     intm |-> Or(g, "use_integer_express_matrix", 0), npumps |-> 1]
RECURSIVE PyRoe(_)
PyRoe(x) ==
    LET g == x.given
        s == StandardRoe(g)
    IN  CASE x.cls = "ROE" -> s
          [] x.cls = "ROEChargeInjection" -> [s EXCEPT !.type = 1, !.eft = 0]
          [] x.cls = "ROETrapPumping" ->
                [s EXCEPT !.type = 2, !.dwell = Or(g, "dwell_times", <<NRat(1, 2), NRat(1, 2)>>), !.prescan = 0, !.overscan = -1,
                          !.ebc = 1, !.fra = 0, !.npumps = Or(g, "n_pumps", 1)]
          (* charge injected at a register beyond n pixels of the image *)
          [] x.cls = "from_normal_roe" ->
                LET r == PyRoe(x.roe) IN [r EXCEPT !.type = 1, !.eft = 0, !.prescan = @ + x.n]

(* Traps of mixed kinds are sorted by kind, in the order given within it *)
PyTrap(x) ==
    LET g == x.given
        dn == Or(g, "density", One)
        tau == Or(g, "release_timescale", One)
        sig == Or(g, "release_timescale_sigma", Zero)
        tc == Or(g, "capture_timescale", Zero)
    IN  CASE x.cls = "TrapInstantCapture" ->
                [d |-> dn, tau |-> tau, va |-> Or(g, "fractional_volume_none_exposed", Zero),
                 vb |-> Or(g, "fractional_volume_full_exposed", Zero)]
          [] x.cls = "TrapSlowCapture" -> [d |-> dn, tau |-> tau, tc |-> tc]
          [] x.cls = "TrapInstantCaptureContinuum" -> [d |-> dn, tau |-> tau, sig |-> sig, tc |-> Zero]
          [] x.cls = "TrapSlowCaptureContinuum" -> [d |-> dn, tau |-> tau, sig |-> sig, tc |-> tc]
PyTraps(l) ==
    LET of(c) == LET s == SelectSeq(l, LAMBDA x : x.cls = c) IN [j \in 1..Len(s) |-> PyTrap(s[j])]
    IN  [ic |-> of("TrapInstantCapture"), sc |-> of("TrapSlowCapture"),
         icco |-> of("TrapInstantCaptureContinuum"), scco |-> of("TrapSlowCaptureContinuum")]
=============================================================================

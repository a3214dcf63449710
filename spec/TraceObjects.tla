---------------------------- MODULE TraceObjects -----------------------------
(***************************************************************************)
(* Objects of the Python package (property Y06): what they say of           *)
(* themselves is what they were given, or what they are derived from.       *)
(*   "is"           the attributes of an object                             *)
(*   "poisson"      a species whose density is a whole number of traps in    *)
(*                  a number of pixels, drawn at random                     *)
(*   "poissons"     densities so drawn with many seeds                      *)
(*   "ellipticity"  how much a species changes the shape of galaxies        *)
(***************************************************************************)
EXTENDS Objects, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE line
Init == line \in 1..Len(Lines)
Next == UNCHANGED line
Spec == Init /\ [][Next]_line
X == Lines[line]

(* A readout, with what arctic itself does not look at *)
RECURSIVE Readout(_)
Readout(x) ==
    LET g == x.given
        s == [dwell_times |-> Or(g, "dwell_times", <<One>>), prescan_offset |-> Or(g, "prescan_offset", 0),
              prescan_length |-> Or(g, "prescan_length", 0), overscan_start |-> Or(g, "overscan_start", -1),
              empty_traps_between_columns |-> Or(g, "empty_traps_between_columns", 1),
              empty_traps_for_first_transfers |-> Or(g, "empty_traps_for_first_transfers", 0),
              force_release_away_from_readout |-> Or(g, "force_release_away_from_readout", 1),
              use_integer_express_matrix |-> Or(g, "use_integer_express_matrix", 0),
              pixel_bounce_kA |-> Or(g, "pixel_bounce_kA", Zero), pixel_bounce_kv |-> Or(g, "pixel_bounce_kv", Zero),
              pixel_bounce_omega |-> Or(g, "pixel_bounce_omega", One), pixel_bounce_gamma |-> Or(g, "pixel_bounce_gamma", One),
              read_noise |-> Or(g, "read_noise", Zero), n_pumps |-> -1, type |-> 0]
    IN  CASE x.cls = "ROE" -> s
          [] x.cls = "ROEChargeInjection" -> [s EXCEPT !.type = 1, !.empty_traps_for_first_transfers = 0]
          [] x.cls = "ROETrapPumping" ->
                [s EXCEPT !.type = 2, !.dwell_times = Or(g, "dwell_times", <<NRat(1, 2), NRat(1, 2)>>),
                          !.empty_traps_between_columns = 1, !.force_release_away_from_readout = 0, !.n_pumps = Or(g, "n_pumps", 1)]
          [] x.cls = "from_normal_roe" ->
                LET r == Readout(x.roe)
                IN  [r EXCEPT !.type = 1, !.empty_traps_for_first_transfers = 0, !.n_pumps = -1, !.prescan_offset = @ + x.n]

Wells(g) ==
    LET c == PyCcd(g)
        each(f(_)) == [p \in 1..Len(c.phases) |-> f(c.phases[p])]
    IN  [fw |-> each(LAMBDA p : p.fw), notch |-> each(LAMBDA p : p.notch), beta |-> each(LAMBDA p : p.beta),
         fef |-> each(LAMBDA p : p.fef), frac |-> c.frac]

Of(g, S, default(_)) == [n \in S |-> Or(g, n, default(n))]
TrapNames(cls) ==
    {"density", "release_timescale"}
    \cup (CASE cls = "TrapInstantCapture" -> {"fractional_volume_none_exposed", "fractional_volume_full_exposed"}
            [] cls = "TrapSlowCapture" -> {"capture_timescale"}
            [] cls = "TrapInstantCaptureContinuum" -> {"release_timescale_sigma"}
            [] cls = "TrapSlowCaptureContinuum" -> {"capture_timescale", "release_timescale_sigma"})
Species_(x) == Of(x.given, TrapNames(x.cls), LAMBDA n : IF n \in {"density", "release_timescale"} THEN One ELSE Zero)

Wanted ==
    CASE X.object.cls \in {"ROE", "ROEChargeInjection", "ROETrapPumping", "from_normal_roe"} -> Readout(X.object)
      [] X.object.cls = "CCD" -> Wells(X.object.given)
      [] OTHER -> Species_(X.object)
Kind(cls) == IF cls = "from_normal_roe" THEN "ROEChargeInjection" ELSE cls

(* Drawn: as many traps as there are on average in so many pixels, more or less *)
Eps == NRat(1, 1000000000)
Whole(x) == LET k == NCeil(NSub(x, NRat(1, 2))) IN NLeq(Zero, k) /\ NClose(x, k, Eps, Eps)
But(r, o) == [n \in DOMAIN r |-> IF n = "density" THEN o.density ELSE r[n]]
Total == NInt(X.total)
Drawn == /\ Whole(NMul(X.drawn.density, Total))
         /\ X.drawn = But(Wanted, X.drawn)
         /\ X.again = X.drawn
(* within six standard deviations of what is expected *)
Sample ==
    LET counts == [k \in 1..Len(X.drawn) |-> NMul(X.drawn[k], Total)]
        n == NInt(Len(X.drawn))
        mean == NMul(Wanted.density, Total)
        spread == NAdd(One, NMul(NInt(6), NSqrt(NMul(n, mean))))
        gap(k) == NSub(counts[k], mean)
        scatter == NDiv(NSum([k \in 1..Len(counts) |-> NMul(gap(k), gap(k))]), n)
    IN  /\ \A k \in 1..Len(counts) : Whole(counts[k])
        /\ NLeq(NAbs(NSub(NSum(counts), NMul(n, mean))), spread)
        (* the variance of a Poisson distribution is its mean (that of the square is 3 mean^2 + mean) *)
        /\ NLeq(NAbs(NSub(scatter, mean)), NMul(NInt(6), NSqrt(NDiv(NAdd(NMul(Two, NMul(mean, mean)), mean), n))))

(* Israel et al. (2015): change of ellipticity per trap, of the logarithm of  *)
(* the release time in pixels                                               *)
D4(k) == NRat(k, 100000)
Ellipticity(density, tau) ==
    LET t == NDiv(NLn(tau), NLn(NInt(10)))
        arc == NMul(D4(-3357), NAtan(NDiv(NSub(t, D4(162800)), D4(29510))))
        z == NDiv(NSub(t, D4(45530)), D4(41320))
        bell == NMul(D4(9901), NExp(NNeg(NDiv(NMul(z, z), Two))))
    IN  NMul(NMul(NInt(4), density), NAdd(D4(5333), NAdd(arc, bell)))

Verdict ==
    IF X.kept = 0 THEN "reject the object was changed"
    ELSE IF X.kind # Kind(X.object.cls) THEN "reject kind " \o X.kind
    ELSE IF X.out # Wanted
         THEN "reject attributes " \o ToString({n \in DOMAIN Wanted : n \notin DOMAIN X.out \/ X.out[n] # Wanted[n]})
    ELSE CASE X.what = "is" -> "accept"
           [] X.what = "poisson" -> IF Drawn THEN "accept" ELSE "reject drawn " \o NStr(X.drawn.density)
           [] X.what = "poissons" -> IF Sample THEN "accept" ELSE "reject densities drawn"
           [] X.what = "ellipticity" ->
                LET w == Ellipticity(Wanted.density, Wanted.release_timescale)
                IN  IF NClose(X.value, w, Eps, NMul(Eps, NAbs(Wanted.density))) THEN "accept"
                    ELSE "reject ellipticity model " \o NStr(w) \o " code " \o NStr(X.value)
Judge == PrintT(<<"V", X.id, Verdict>>)
=============================================================================

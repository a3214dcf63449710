------------------------------- MODULE Wrapper -------------------------------
(***************************************************************************)
(* The Python package (properties Y01-Y03): from the objects and keyword    *)
(* arguments of a call of arcticpy.add_cti or remove_cti to the settings    *)
(* of the state machine.  A call is a record                                *)
(*   [image, fn, iters, given]                                              *)
(* whose `given` has the arguments that were given; the others have their   *)
(* defaults.  Objects are likewise records of what was given to make them.  *)
(***************************************************************************)
EXTENDS Setup, Acs, Objects

(* One of the two directions *)
Arg(side, name) == side \o "_" \o name
PyDir(g, side) ==
    [roe |-> PyRoe(Or(g, Arg(side, "roe"), [cls |-> "ROE", given |-> [none |-> 0]])),
     ccd |-> PyCcd(Or(g, Arg(side, "ccd"), [none |-> 0])),
     traps |-> PyTraps(Or(g, Arg(side, "traps"), << >>)),
     express |-> Or(g, Arg(side, "express"), 0), offset |-> Or(g, Arg(side, "window_offset"), 0),
     w0 |-> Or(g, Arg(side, "window_start"), 0), w1 |-> Or(g, Arg(side, "window_stop"), -1),
     prune_n |-> Or(g, Arg(side, "prune_n_electrons"), NDiv(One, NMul(NInt(100000), NInt(100000)))),
     prune_f |-> Or(g, Arg(side, "prune_frequency"), 20)]
Clocks(g, side) == Len(Or(g, Arg(side, "traps"), << >>)) > 0

PyBounces(g) == LET l == Or(g, "pixel_bounce_list", << >>) IN [k \in 1..Len(l) |-> Oscillator(l[k])]

(* The ready-made model of Hubble's ACS takes the place of three arguments *)
AcsDir(dir, date) ==
    [dir EXCEPT !.roe = [StandardRoe([none |-> 0]) EXCEPT !.overscan = AcsOverscan],
                !.ccd = [phases |-> <<AcsPhase>>, frac |-> <<One>>],
                !.traps = [ic |-> AcsTraps(date), sc |-> << >>, icco |-> << >>, scco |-> << >>]]

FromPython(x) ==
    LET g  == x.given
        P0 == PyDir(g, "parallel")
        acs == "acs" \in DOMAIN x
        P  == IF acs THEN AcsDir(P0, x.acs) ELSE P0
        S  == PyDir(g, "serial")
        hasP == acs \/ Clocks(g, "parallel")
        hasS == Clocks(g, "serial")
    IN  [image |-> x.image, mode |-> IF x.fn = "remove_cti" THEN 2 ELSE 1, iters |-> x.iters,
         neg |-> Or(g, "allow_negative_pixels", 1), clampfirst |-> x.clampfirst,
         P |-> P, S |-> S, hasP |-> IF hasP THEN 1 ELSE 0,
         (* nothing to clock: negative pixels are still seen to *)
         hasS |-> IF hasS \/ ~hasP THEN 1 ELSE 0,
         pw |-> <<P.w0, P.w1>>, sw |-> <<S.w0, S.w1>>, c0 |-> 0, c1 |-> -1,
         bounce |-> PyBounces(g)]
=============================================================================

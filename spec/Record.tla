------------------------------- MODULE Record --------------------------------
(***************************************************************************)
(* What a corrected image, and the header given with it, say has been done  *)
(* (property Y07).  A history of calls shares one header, whose state is a   *)
(* function of keys into <<value, comment>>; a call is                      *)
(*   fn      "add_cti" or "remove_cti"                                      *)
(*   header  1 if the header is given                                       *)
(*   noise   the read noise that is set aside while correcting, or 0        *)
(* The image returned carries the covariance that the correction leaves     *)
(* between pixels, in the corners of the image, and so do parts of it.       *)
(***************************************************************************)
EXTENDS Num, Sequences

Cards == {"cticor", "ctipar"}
Text(fn, version) == (IF fn = "add_cti" THEN "CTI addition" ELSE "CTI correction") \o " performed using ArCTIc v" \o version

After(h, call, version) ==
    IF call.header = 0 THEN h
    ELSE [k \in DOMAIN h \cup Cards |-> IF k \in Cards THEN <<"ArCTIc", Text(call.fn, version)>> ELSE h[k]]

RECURSIVE History(_, _, _)
History(h, calls, version) ==
    IF calls = << >> THEN << >>
    ELSE LET n == After(h, Head(calls), version) IN <<n>> \o History(n, Tail(calls), version)

(* between a pixel and itself, it is that of the noise (as yet as its r.m.s.)  *)
Covariance(call) ==
    LET all(centre) == [a \in 1..2 |-> [b \in 1..2 |-> [i \in 1..5 |-> [j \in 1..5 |->
            IF call.fn = "remove_cti" /\ i = 3 /\ j = 3 THEN centre ELSE Zero]]]]
    IN  {all(call.noise), all(NMul(call.noise, call.noise))}
=============================================================================

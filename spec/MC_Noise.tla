------------------------------ MODULE MC_Noise -------------------------------
(***************************************************************************)
(* The noise model over exact rationals, for every small image and smooth   *)
(* part with pixels from small alphabets (property Y04).  Every model is    *)
(* printed, to be compared with that of the real code.                      *)
(***************************************************************************)
EXTENDS Noise, Json, IOUtils

Conf == JsonDeserialize(IOEnv.CONF)
Q(x) == NRat(x[1], x[2])
Pixels == {NInt(Conf.pixels[i]) : i \in 1..Len(Conf.pixels)}
Smooth == {NInt(Conf.smooth[i]) : i \in 1..Len(Conf.smooth)}
VARIABLES shape, im, sm, amp, cols
vars == <<shape, im, sm, amp, cols>>
Frac == Q(Conf.frac)
Init ==
    /\ shape \in 1..Len(Conf.shapes)
    /\ im \in [1..Conf.shapes[shape][1] -> [1..Conf.shapes[shape][2] -> Pixels]]
    /\ sm \in [1..Conf.shapes[shape][1] -> [1..Conf.shapes[shape][2] -> Smooth]]
    /\ amp \in {Q(Conf.amps[i]) : i \in 1..Len(Conf.amps)}
    /\ cols \in {0, 1}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

R == Conf.shapes[shape][1]
C == Conf.shapes[shape][2]
M(a, b) == NoiseModel(a, b, amp, Frac, cols)
Model == TLCEval(M(im, sm))
UpDown(A) == [i \in 1..Len(A) |-> A[Len(A) + 1 - i]]
LeftRight(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> A[i][Len(A[1]) + 1 - j]]]
Flip(A) == [j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]]
Map(Op(_), A) == [i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> Op(A[i][j])]]

Symmetric ==
    LET m == Model
    IN  /\ M(UpDown(im), UpDown(sm)) = UpDown(m)
        /\ M(LeftRight(im), LeftRight(sm)) = LeftRight(m)
        /\ cols = 1 => M(Flip(im), Flip(sm)) = Flip(m)
        (* a positive excursion is treated as a negative one *)
        /\ M(Map(NNeg, im), Map(NNeg, sm)) = Map(NNeg, m)
        (* the level of the image does not matter *)
        /\ M(Map(LAMBDA x : NAdd(x, NInt(5)), im), Map(LAMBDA x : NAdd(x, NInt(5)), sm)) = m
        (* nothing is noise in a flat image *)
        /\ (im = sm /\ \A i \in 1..R, j \in 1..C : im[i][j] = im[1][1]) => \A i \in 1..R, j \in 1..C : NIsZero(m[i][j])
        (* bounded by its clips *)
        /\ \A i \in 1..R, j \in 1..C : NLeq(NMul(NAbs(m[i][j]), NInt(IF cols = 1 THEN 6 ELSE 4)),
                                             NAdd(One, NMul(NInt(IF cols = 1 THEN 5 ELSE 3), NMul(amp, Frac))))
Text(A) == FoldLeft(LAMBDA a, r : a \o FoldLeft(LAMBDA b, x : b \o NStr(x) \o " ", "", r), "", A)
Emit == PrintT(<<"V", ToString(shape), NStr(amp), ToString(cols), Text(im), Text(sm), Text(Model)>>)
=============================================================================

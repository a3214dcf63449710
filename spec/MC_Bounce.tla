------------------------------ MODULE MC_Bounce ------------------------------
(***************************************************************************)
(* Reading out rows pixel by pixel, over exact rationals (property Y03):    *)
(* two rows r1, r2 with every pixel from a small alphabet, and the row      *)
(* r1 + 3 r2, through the same oscillator.  Final biases of r1 are printed, *)
(* to be compared with those of the real code.                              *)
(***************************************************************************)
EXTENDS Bounce, Json, IOUtils

Conf == JsonDeserialize(IOEnv.CONF)
Q(x) == NRat(x[1], x[2])
N == Conf.n
Alphabet == {NInt(Conf.pixels[i]) : i \in 1..Len(Conf.pixels)}
Others == {NInt(Conf.others[i]) : i \in 1..Len(Conf.others)}
Osc == TLCEval([k \in 1..Len(Conf.osc) |-> [A |-> Q(Conf.osc[k].A), B |-> Q(Conf.osc[k].B),
                                            kA |-> Q(Conf.osc[k].kA), kv |-> Q(Conf.osc[k].kv)]])

VARIABLES r1, r2, o, j, s1, s2, s3, b1, b2, b3
vars == <<r1, r2, o, j, s1, s2, s3, b1, b2, b3>>
Mix(x, y) == NAdd(x, NMul(NInt(3), y))
Row3 == [i \in 1..N |-> Mix(r1[i], r2[i])]

Init ==
    /\ r1 \in [1..N -> Alphabet] /\ r2 \in [1..N -> Others]
    /\ o \in 1..Len(Osc)
    /\ j = 1
    /\ s1 = AtRest(r1[1]) /\ s2 = AtRest(r2[1]) /\ s3 = AtRest(Mix(r1[1], r2[1]))
    /\ b1 = <<Zero>> /\ b2 = <<Zero>> /\ b3 = <<Zero>>
Next ==
    /\ j < N /\ j' = j + 1
    /\ s1' = ReadPixel(Osc[o], s1, r1[j']) /\ s2' = ReadPixel(Osc[o], s2, r2[j']) /\ s3' = ReadPixel(Osc[o], s3, Row3[j'])
    /\ b1' = Append(b1, s1'.b) /\ b2' = Append(b2, s2'.b) /\ b3' = Append(b3, s3'.b)
    /\ UNCHANGED <<r1, r2, o>>
Spec == Init /\ [][Next]_vars

Agree(n) == \A i \in 1..n : r1[i] = r2[i]
Same(n) == \A i \in 2..n : r1[i] = r1[1]
(* what is read later does not matter *)
Causal == Agree(j) => b1 = b2
Linear == \A i \in 1..j : b3[i] = Mix(b1[i], b2[i])
Constant == Same(j) => \A i \in 1..j : NIsZero(b1[i])
(* a level added to the whole row changes nothing *)
Level == (j = N) => RowBias(Osc[o], [i \in 1..N |-> NAdd(r1[i], NInt(7))], 0, N) = b1
AsFunction == (j = N) => RowBias(Osc[o], r1, 0, N) = b1
(* a free oscillation follows the last change *)
Settles == (j >= 4 /\ r1[j] = r1[j - 1] /\ r1[j - 1] = r1[j - 2]) =>
    b1[j] = NSub(NMul(Osc[o].A, b1[j - 1]), NMul(Osc[o].B, b1[j - 2]))
(* no coupling, no bounce *)
Uncoupled == (NIsZero(Osc[o].kA) /\ NIsZero(Osc[o].kv)) => \A i \in 1..j : NIsZero(b1[i])
(* A window of columns starts from rest at its first pixel *)
Windowed == (j = N /\ N >= 3) => SubSeq(RowBias(Osc[o], r1, 1, N), 2, N) = RowBias(Osc[o], SubSeq(r1, 2, N), 0, N - 1)
(* Removal: a bounce that acts on later pixels only is undone by as many     *)
(* iterations as there are pixels; a weak one shrinks                        *)
Instant == NSub(NMul(Osc[o].A, NSub(Osc[o].kA, Osc[o].kv)), NMul(Osc[o].B, NSub(Osc[o].kA, NMul(Two, Osc[o].kv))))
W == <<0, -1, 0, -1>>
Undone == (j = N /\ NIsZero(Instant)) => Unbounced(<<Osc[o]>>, Bounced(<<Osc[o]>>, <<r1>>, W), W, N) = <<r1>>
Worst(A, B) == FoldLeft(LAMBDA a, i : NMax(a, NAbs(NSub(A[i], B[i]))), Zero, [i \in 1..N |-> i])
Weak == NLeq(NMul(NInt(10), NAdd(NAbs(Osc[o].kA), NMul(Two, NAbs(Osc[o].kv)))), One)
Shrinks == (j = N /\ Weak) =>
    LET y == Bounced(<<Osc[o]>>, <<r1>>, W)
        e == Unbounced(<<Osc[o]>>, y, W, 2)
    IN  NLeq(NMul(NInt(4), Worst(e[1], r1)), Worst(y[1], r1))

(* a fixed r2 is enough for the printout *)
Emit == (j = N /\ r2 = [i \in 1..N |-> NInt(Conf.others[1])]) =>
    PrintT(<<"V", ToString(o), FoldLeft(LAMBDA a, x : a \o NStr(x) \o " ", "", r1), FoldLeft(LAMBDA a, x : a \o NStr(x) \o " ", "", b1)>>)
=============================================================================

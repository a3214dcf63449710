-------------------------------- MODULE Noise --------------------------------
(***************************************************************************)
(* The model of read noise in one step of its separation from an image      *)
(* (property Y04; Massey et al. 2010), from the image and its current       *)
(* smooth part: the mean of four terms, or six if the columns are to be     *)
(* smoothed as well as the rows,                                            *)
(*   - the noise taken out of this pixel so far,                            *)
(*   - that of the pixel and its neighbours, on average,                    *)
(*   - the excess of the smooth part over this pixel above it, below it,    *)
(*     (and to the left, and to the right)                                  *)
(* each clipped, and given less weight where it is likely to be read noise  *)
(* (the first two) or unlikely to be (the others).                          *)
(***************************************************************************)
EXTENDS Num, FiniteSets, FiniteSetsExt, SequencesExt

NoiseClip(x, m) == NClamp(x, NNeg(m), m)
(* x^2 / (x^2 + k a^2), of 0 where there is nothing *)
Significant(x, k, a) ==
    IF NIsZero(x) THEN Zero
    ELSE NDiv(NMul(x, x), NAdd(NMul(x, x), NMul(NInt(k), NMul(a, a))))
Insignificant(x, k, a) == NSub(One, IF NIsZero(x) THEN Zero ELSE Significant(x, k, a))

Around(R, C, i, j) == {p \in (1..R) \X (1..C) : IAbs(p[1] - i) <= 1 /\ IAbs(p[2] - j) <= 1}

NoiseAt(im, sm, amp, frac, cols, i, j) ==
    LET R == Len(im)
        C == Len(im[1])
        out(p) == NSub(im[p[1]][p[2]], sm[p[1]][p[2]])
        clip == NMul(amp, frac)
        near == Around(R, C, i, j)
        mean == NDiv(FoldSet(LAMBDA p, a : NAdd(a, out(p)), Zero, near), NInt(Cardinality(near)))
        excess(a, b) == IF a < 1 \/ a > R \/ b < 1 \/ b > C THEN Zero
                        ELSE LET x == NSub(sm[a][b], sm[i][j])
                             IN  NMul(NoiseClip(x, clip), Insignificant(x, 4, amp))
        d == out(<<i, j>>)
        rows == <<NMul(NoiseClip(d, One), Significant(d, 4, amp)),
                  NMul(NoiseClip(mean, clip), Significant(mean, 18, amp)),
                  excess(i - 1, j), excess(i + 1, j)>>
        all == IF cols = 1 THEN rows \o <<excess(i, j - 1), excess(i, j + 1)>> ELSE rows
    IN  NDiv(NSum(all), NInt(Len(all)))
NoiseModel(im, sm, amp, frac, cols) ==
    [i \in 1..Len(im) |-> [j \in 1..Len(im[1]) |-> NoiseAt(im, sm, amp, frac, cols, i, j)]]
=============================================================================

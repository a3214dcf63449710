------------------------------- MODULE Bounce --------------------------------
(***************************************************************************)
(* Pixel bounce (property Y03): the reference voltage of the readout gets   *)
(* an impulse whenever the signal changes from one pixel of a row to the    *)
(* next, and settles as a damped harmonic oscillator.  Read out pixel by    *)
(* pixel this is the difference equation (43) of Cieslinski & Ratkiewicz    *)
(* (2005),                                                                  *)
(*    b(i) = A b'(i-1) - B b'(i-2),                                         *)
(* b' being the bias b after the impulse of a change delta = x(i) - x(i-1): *)
(*    b'(i-1) = b(i-1) + (kA - kv) delta                                    *)
(*    b'(i-2) = the b'(i-1) of the pixel before + (kA - 2 kv) delta         *)
(* with A = 2 exp(-gamma) cos(omega), B = exp(-2 gamma).                    *)
(* An oscillator here is [A, B, kA, kv].                                    *)
(***************************************************************************)
EXTENDS Num, SequencesExt

(* The oscillator of given gamma and omega *)
Or(g, name, default) == IF name \in DOMAIN g THEN g[name] ELSE default
Oscillator(g) ==
    LET gamma == Or(g, "gamma", One)
        omega == Or(g, "omega", One)
    IN  [A |-> NMul(Two, NMul(NExp(NNeg(gamma)), NCos(omega))), B |-> NExp(NNeg(NMul(Two, gamma))),
         kA |-> Or(g, "kA", Zero), kv |-> Or(g, "kv", Zero)]

(* Reading out a row: last pixel x, its bias b, and the disturbed bias m of  *)
(* the pixel before it.  Everything has settled before the first pixel.     *)
AtRest(x) == [x |-> x, b |-> Zero, m |-> Zero]
ReadPixel(o, s, x) ==
    LET delta == NSub(x, s.x)
        m1 == NAdd(s.b, NMul(NSub(o.kA, o.kv), delta))
        m2 == NAdd(s.m, NMul(NSub(o.kA, NMul(Two, o.kv)), delta))
    IN  [x |-> x, b |-> NSub(NMul(o.A, m1), NMul(o.B, m2)), m |-> m1]

(* Bias of each pixel of a row, of which columns lo..hi-1 (from 0) are read  *)
RowBias(o, row, lo, hi) ==
    FoldLeft(LAMBDA a, j :
                IF j <= lo \/ j > hi THEN [a EXCEPT !.out = Append(@, Zero)]
                ELSE LET s == IF j = lo + 1 THEN AtRest(row[j]) ELSE ReadPixel(o, a.s, row[j])
                     IN  [s |-> s, out |-> Append(a.out, s.b)],
             [s |-> AtRest(Zero), out |-> << >>], [j \in 1..Len(row) |-> j]).out

(* Bias of an image in a window w = <<first row, end, first column, end>>    *)
ImageBias(os, im, w) ==
    LET end(x, n) == IF x = -1 THEN n ELSE x
    IN  [i \in 1..Len(im) |->
            IF i <= w[1] \/ i > end(w[2], Len(im)) \/ Len(os) = 0 THEN [j \in 1..Len(im[i]) |-> Zero]
            ELSE LET b == [k \in 1..Len(os) |-> RowBias(os[k], im[i], w[3], end(w[4], Len(im[i])))]
                 IN  [j \in 1..Len(im[i]) |-> NSum([k \in 1..Len(os) |-> b[k][j]])]]

(* The image is measured against the bias (of all oscillators at once)       *)
Bounced(os, im, w) ==
    LET b == ImageBias(os, im, w)
    IN  [i \in 1..Len(im) |-> [j \in 1..Len(im[i]) |-> NSub(im[i][j], b[i][j])]]
(* Removing it by n iterations *)
Unbounced(os, im, w, n) ==
    FoldLeft(LAMBDA e, k :
                LET a == Bounced(os, e, w)
                IN  [i \in 1..Len(im) |-> [j \in 1..Len(im[i]) |-> NAdd(e[i][j], NSub(im[i][j], a[i][j]))]],
             im, [k \in 1..n |-> k])
=============================================================================

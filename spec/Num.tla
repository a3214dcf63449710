-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* The arithmetic of the specification.                                    *)
(*                                                                         *)
(* Every quantity of the model (electrons, volumes, fill levels, express   *)
(* multipliers, times) is a Num.  As written here, a Num is an exact       *)
(* rational <<n, d>> in lowest terms with d > 0, and the design models     *)
(* (MC_*.tla) are checked over rationals, with exact equalities; so that   *)
(* numerators may grow, spec/java/rat/Num.java overrides the operators     *)
(* with rationals of unbounded size (written as strings "n/d").            *)
(*                                                                         *)
(* The conformance specifications (Trace*.tla) run the SAME modules over   *)
(* IEEE doubles: spec/java/dbl/Num.java overrides these operators, a Num   *)
(* being then the pair <<hi, lo>> of the 32-bit halves of the bits of a    *)
(* double (TLC integers have 32 bits).                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
IAbs(a) == IF a < 0 THEN -a ELSE a
IMin(a, b) == IF a < b THEN a ELSE b
IMax(a, b) == IF a < b THEN b ELSE a

(* The rational a/b *)
NRat(a, b) ==
    LET s == IF b < 0 THEN -1 ELSE 1
        g == Gcd(IAbs(a), IAbs(b))
    IN  <<(s * a) \div g, (s * b) \div g>>
NInt(a) == NRat(a, 1)

NAdd(x, y) == NRat(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
NSub(x, y) == NRat(x[1] * y[2] - y[1] * x[2], x[2] * y[2])
NMul(x, y) == NRat(x[1] * y[1], x[2] * y[2])
NDiv(x, y) == NRat(x[1] * y[2], x[2] * y[1])
NLt(x, y) == x[1] * y[2] < y[1] * x[2]
NLeq(x, y) == x[1] * y[2] <= y[1] * x[2]
NEq(x, y) == x[1] * y[2] = y[1] * x[2]
NCeil(x) == NInt(-((-x[1]) \div x[2]))
(* The largest (small) integer not above x *)
NToInt(x) == x[1] \div x[2]
(* Sum of a sequence of Nums *)
RECURSIVE NSum(_)
NSum(s) == IF Len(s) = 0 THEN NInt(0) ELSE NAdd(Head(s), NSum(Tail(s)))

(* Transcendental functions have no exact rational counterpart: the design *)
(* models only use them where the result is rational (power 0, 1 or 2) and *)
(* are given probabilities, not timescales, as parameters.                 *)
NPow(x, y) == IF y = NInt(1) THEN x
              ELSE IF y = NInt(2) THEN NMul(x, x)
              ELSE IF y = NInt(0) THEN NInt(1)
              ELSE Assert(FALSE, "NPow: not rational")
NExp(x) == IF x = NInt(0) THEN NInt(1) ELSE Assert(FALSE, "NExp: not rational")
NLn(x) == IF x = NInt(1) THEN NInt(0) ELSE Assert(FALSE, "NLn: not rational")
NSqrt(x) == Assert(FALSE, "NSqrt: not rational")
NSin(x) == Assert(FALSE, "NSin: not rational")
NCos(x) == Assert(FALSE, "NCos: not rational")
NAtan(x) == IF x = NInt(0) THEN NInt(0) ELSE Assert(FALSE, "NAtan: not rational")

(* |x - y| <= rel * max(|x|, |y|) + abs: used only to compare the model    *)
(* with the implementation, and to name near-ties.  Exact over rationals.  *)
NClose(x, y, rel, abs) == NEq(x, y)
(* Same value, NaN included *)
NSame(x, y) == x = y
NFinite(x) == TRUE
(* For reports *)
NStr(x) == ToString(x)

(***************************************************************************)
(* Derived                                                                 *)
(***************************************************************************)
Zero == NInt(0)
One == NInt(1)
Two == NInt(2)
NNeg(x) == NSub(Zero, x)
NAbs(x) == IF NLt(x, Zero) THEN NNeg(x) ELSE x
NMax(x, y) == IF NLt(x, y) THEN y ELSE x
NMin(x, y) == IF NLt(y, x) THEN y ELSE x
NClamp(x, lo, hi) == NMin(NMax(x, lo), hi)
NIsZero(x) == NEq(x, Zero)
NPos(x) == NLt(Zero, x)
=============================================================================

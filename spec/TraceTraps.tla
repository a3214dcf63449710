----------------------------- MODULE TraceTraps -----------------------------
(***************************************************************************)
(* Conformance of recorded histories of one trap manager of the real code: *)
(* every line of the trace file is a manager with a history of operations  *)
(*   t  a cloud of x electrons dwells one dwell time                       *)
(*   s  store the trap states       r  restore the stored trap states      *)
(*   x  reset (empty) the traps     p  prune with threshold x              *)
(* and what was observed after each: electrons returned (ret), electrons   *)
(* trapped as the code counts them (trapped), the levels, and whether they *)
(* fit the arrays (inside).  The specification goes through the same       *)
(* operations from empty traps, and every observation is judged:           *)
(*   conserve  what was returned is what the levels lost         (T01)     *)
(*   count     the code counts what the levels hold              (T01)     *)
(*   bounds    levels and returned charge within physical bounds (T02)     *)
(*   state     store, restore and reset do what they say         (T02)     *)
(*   returned  returned as in the specification                  (T03-T06) *)
(*   profile   occupied depth by depth as in the specification   (T03-T06) *)
(*   prune     pruned as in the specification                    (T07)     *)
(*   exact     as computed by MC_Traps over exact rationals, for histories *)
(*             that it printed                                             *)
(* Only the classes that the record asks for (want) count.                 *)
(***************************************************************************)
EXTENDS Species, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
Manager(x) ==
    MakeManager(x.kind, x.traps[x.kind], x.phase, x.frac, x.dwell, x.maxt)
Derived == TLCEval([c \in 1..Len(Lines) |-> Manager(Lines[c])])

VARIABLES line, step, S, stored, seen, seenStored, close, bad
tvars == <<line, step, S, stored, seen, seenStored, close, bad>>

M == Derived[line]
Want == ToSet(Lines[line].want)
Ops == Lines[line].ops
Rel == Lines[line].rel
MaxDens == FoldLeft(LAMBDA a, s : NMax(a, s.d), One, M.sp)
Abs == NMul(Rel, MaxDens)
(* Rounding of a dwell with a cloud of n electrons *)
AbsN(n) == NMul(Rel, NMax(NAbs(n), MaxDens))

InitT ==
    /\ line \in 1..Len(Lines)
    /\ step = 1
    /\ S = NoLevels /\ stored = NoLevels /\ seen = NoLevels /\ seenStored = NoLevels
    /\ close = FALSE /\ bad = {}

Profile(A, B) == SameProfile(M, A, B, Rel, Rel)
ObservedBounds(o) ==
    /\ o.inside = 1
    /\ InBounds(M, o.levels, Rel)
    /\ NFinite(o.ret)
    /\ o.op = "t" => NLeq(NNeg(NMax(o.x, Zero)), NAdd(o.ret, AbsN(o.x)))

(* TLC evaluates primed variables in order: S' is known to Judge *)
Judge(o, near) ==
    LET T == S'
        common ==
            (IF ObservedBounds(o) THEN {} ELSE {"bounds"})
            \cup (IF NClose(o.trapped, Plain(o.levels), Rel, Abs) THEN {} ELSE {"count"})
        exact == IF o.exact = 0 \/ ( /\ NClose(o.ret, o.wret, Rel, AbsN(o.x))
                                      /\ NClose(o.trapped, o.wheld, Rel, Abs)) THEN {} ELSE {"exact"}
    IN  common \cup exact \cup
        CASE o.op = "t" ->
               (IF NClose(o.ret, NSub(Held(M, seen), Held(M, o.levels)), Rel, AbsN(o.x)) THEN {} ELSE {"conserve"})
               \cup (IF near \/ Profile(o.levels, T) THEN {} ELSE {"profile"})
          [] o.op = "p" ->
               (IF \/ near \/ Profile(o.levels, T) THEN {} ELSE {"prune"})
               \cup (IF \/ \E j \in 1..Len(M.sp) : M.kind = "ic" /\ ~M.sp[j].uni
                        \/ NClose(Plain(seen), Plain(o.levels), Rel, Abs) THEN {} ELSE {"conserve"})
               \cup (IF Len(o.levels) <= Len(seen) THEN {} ELSE {"prune"})
          [] o.op = "s" -> IF o.levels = seen THEN {} ELSE {"state"}
          [] o.op = "r" -> IF o.levels = seenStored THEN {} ELSE {"state"}
          [] o.op = "x" -> IF o.levels = << >> THEN {} ELSE {"state"}

Step ==
    /\ bad = {}
    /\ step <= Len(Ops)
    /\ LET o == Ops[step]
           w == IF o.op = "t" THEN Dwell(M, S, o.x) ELSE [r |-> Zero, S |-> S]
           p == IF o.op = "p" THEN Prune(M, seen, o.x) ELSE [S |-> S, near |-> FALSE]
           nr == p.near
       IN  /\ S' = CASE o.op = "t" -> w.S
                     [] o.op = "s" -> S
                     [] o.op = "r" -> stored
                     [] o.op = "x" -> NoLevels
                     (* too close to call: carry on from what the code did *)
                     [] o.op = "p" -> IF p.near THEN o.levels ELSE p.S
           /\ stored' = IF o.op = "s" THEN S ELSE stored
           /\ seen' = o.levels
           /\ seenStored' = IF o.op = "s" THEN o.levels ELSE seenStored
           /\ close' = (close \/ nr)
           /\ bad' = ( Judge(o, nr)
                       \cup (IF o.op # "t" \/ nr \/ NClose(o.ret, w.r, Rel, AbsN(o.x)) THEN {} ELSE {"returned"}) )
                     \cap Want
    /\ step' = step + 1
    /\ UNCHANGED line

SpecT == InitT /\ [][Step]_tvars

Over == bad # {} \/ step > Len(Ops)
JudgeT == Over => PrintT(<<"V", Lines[line].id,
            IF bad # {} THEN "reject " \o ToString(bad) \o " at operation " \o ToString(step - 1)
            ELSE IF close THEN "accept but for a close call" ELSE "accept">>)
(* The specification itself stays within bounds on every recorded history   *)
(* (what it prunes is what was observed, which need not be)                 *)
ModelBounds == (\A k \in 1..(step - 1) : Ops[k].op # "p") => InBounds(M, S, NRat(1, 100000000))
=============================================================================

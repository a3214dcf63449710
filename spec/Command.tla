------------------------------- MODULE Command -------------------------------
(***************************************************************************)
(* The command line of the program (property U02).  Arguments are sequences *)
(* of characters.  They are taken one by one, the letters of a group of     *)
(* short options one by one too; the state is                               *)
(*   args   the arguments that are left                                     *)
(*   group  the letters that are left of a group of short options           *)
(*   ended  options have been ended by "--"                                 *)
(*   verb, demo, bench   what has been asked for                            *)
(*   rest   arguments that are no options                                   *)
(*   out    what has been decided: "" (go on), "help", "value" (an option    *)
(*          needs one), "unknown", "run"                                    *)
(*   about  the argument that an error is about (or << >>)                  *)
(* The verbosity is 1 unless it is given.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Long == {[name |-> <<"h", "e", "l", "p">>, key |-> "h"],
         [name |-> <<"v", "e", "r", "b", "o", "s", "i", "t", "y">>, key |-> "v"],
         [name |-> <<"d", "e", "m", "o">>, key |-> "d"],
         [name |-> <<"b", "e", "n", "c", "h", "m", "a", "r", "k">>, key |-> "b"]}
Flags == {"h", "d", "b"}

Fresh(argv) == [args |-> argv, group |-> << >>, now |-> << >>, ended |-> FALSE, verb |-> 1, demo |-> FALSE, bench |-> FALSE,
                rest |-> << >>, out |-> "", about |-> << >>]

IsPrefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))

(* A number as the C library reads it: digits after an optional sign, and 0  *)
(* if there are none                                                        *)
Value == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
            CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
              [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
RECURSIVE Digits(_, _)
Digits(s, n) == IF s = << >> \/ Head(s) \notin DOMAIN Value THEN n ELSE Digits(Tail(s), 10 * n + Value[Head(s)])
RECURSIVE Number(_)
Number(s) == IF s = << >> THEN 0
             ELSE IF Head(s) = " " THEN Number(Tail(s))
             ELSE IF Head(s) = "-" THEN -Digits(Tail(s), 0)
             ELSE IF Head(s) = "+" THEN Digits(Tail(s), 0) ELSE Digits(s, 0)

Flag(s, key) == CASE key = "h" -> [s EXCEPT !.out = "help"]
                  [] key = "d" -> [s EXCEPT !.demo = TRUE]
                  [] key = "b" -> [s EXCEPT !.bench = TRUE]
Verbosity(s, text) == [s EXCEPT !.verb = Number(text)]
(* the value is the next argument, whatever that is *)
ValueFromNext(s) == IF s.args = << >> THEN [s EXCEPT !.out = "value", !.about = s.now]
                    ELSE Verbosity([s EXCEPT !.args = Tail(@)], Head(s.args))

(* An option by name, which may be shortened as long as it is clear, and     *)
(* may have a value after "="                                               *)
Equals(t) == {i \in 1..Len(t) : t[i] = "="}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Named(s, t) ==
    LET cut == IF Equals(t) = {} THEN Len(t) + 1 ELSE First(Equals(t))
        name == SubSeq(t, 1, cut - 1)
        given == cut <= Len(t)
        value == Drop(t, cut)
        exact == {o \in Long : o.name = name}
        like == IF exact # {} THEN exact ELSE {o \in Long : IsPrefix(name, o.name)}
        unknown == [s EXCEPT !.out = "unknown", !.about = s.now]
    IN  IF Cardinality(like) # 1 THEN unknown
        ELSE LET key == (CHOOSE o \in like : TRUE).key
             IN  IF key = "v" THEN (IF given THEN Verbosity(s, value) ELSE ValueFromNext(s))
                 ELSE IF given THEN unknown ELSE Flag(s, key)

Letter(s) ==
    LET key == Head(s.group)
        t == [s EXCEPT !.group = Tail(@)]
    IN  IF key \in Flags THEN Flag(t, key)
        ELSE IF key = "v" THEN (IF t.group = << >> THEN ValueFromNext(t) ELSE Verbosity([t EXCEPT !.group = << >>], t.group))
        (* which argument it was in is said only if that is used up *)
        ELSE [t EXCEPT !.out = "unknown", !.about = IF t.group = << >> THEN s.now ELSE << >>]

Argument(s) ==
    LET a == Head(s.args)
        t == [s EXCEPT !.args = Tail(@), !.now = a]
    IN  IF s.ended \/ Len(a) < 2 \/ a[1] # "-" THEN [t EXCEPT !.rest = Append(@, a)]
        ELSE IF a = <<"-", "-">> THEN [t EXCEPT !.ended = TRUE]
        ELSE IF a[2] = "-" THEN Named(t, Drop(a, 2))
        ELSE [t EXCEPT !.group = Drop(a, 1)]

Over(s) == s.out # ""
Step(s) == IF s.group # << >> THEN Letter(s) ELSE IF s.args # << >> THEN Argument(s) ELSE [s EXCEPT !.out = "run"]

RECURSIVE Finish(_)
Finish(s) == IF Over(s) THEN s ELSE Finish(Step(s))
Parse(argv) == Finish(Fresh(argv))

(* What the program then does *)
Exit(s) == IF s.out \in {"help", "run"} THEN 0 ELSE 1
Does(s) == IF s.out # "run" THEN "nothing" ELSE IF s.demo THEN "demo" ELSE IF s.bench THEN "benchmark" ELSE "nothing"
(* ... where it can: the files of the demo may have no room, the image of the *)
(* benchmark may not be there and not be fetched, or not be one              *)
Worlds == {"fine", "noroom", "noimage", "fetched", "badimage"}
Can(s, w) == CASE Does(s) = "demo" -> w # "noroom"
               [] Does(s) = "benchmark" -> w \notin {"noimage", "badimage"}
               [] OTHER -> TRUE
ExitIn(s, w) == IF Can(s, w) THEN Exit(s) ELSE 1
Fetches(s, w) == Does(s) = "benchmark" /\ w \in {"noimage", "fetched"}
Announces(s) == Does(s) # "nothing" /\ s.verb >= 1
=============================================================================

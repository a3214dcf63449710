----------------------------- MODULE MC_Command ------------------------------
(***************************************************************************)
(* All command lines of up to N of the given arguments (property U02), with *)
(* what they come to, which is printed to be compared with the program.     *)
(***************************************************************************)
EXTENDS Command, TLC, Json, IOUtils

Conf == JsonDeserialize(IOEnv.CONF)
Words == {Conf.words[i] : i \in 1..Len(Conf.words)}
Few == {Conf.few[i] : i \in 1..Len(Conf.few)}

VARIABLES argv, s
Init ==
    /\ \/ \E n \in 0..Conf.n : argv \in [1..n -> Words]
       \/ argv \in [1..(Conf.n + 1) -> Few]
    /\ s = Fresh(argv)
Next == ~Over(s) /\ s' = Step(s) /\ UNCHANGED argv
Spec == Init /\ [][Next]_<<argv, s>>

Plain == <<"f">>
AsFunction == Over(s) => s = Parse(argv)
(* help and errors come from where they are first met: what follows is not looked at *)
Whole == s.out = "run" => s.args = << >> /\ s.group = << >>
Early == s.out = "help" => Parse(Append(argv, Plain)).out = "help"
(* a plain argument at the end changes nothing unless it becomes a value *)
Operand == Over(s) =>
    LET t == Parse(Append(argv, Plain))
    IN  CASE s.out = "run" -> Exit(t) = 0 /\ Does(t) = Does(s) /\ t.verb = s.verb /\ t.rest = Append(s.rest, Plain)
          [] s.out = "value" -> t.out = "run" /\ t.verb = 0
          [] OTHER -> t.out = s.out
(* in front it never does *)
InFront == Over(s) =>
    LET t == Parse(<<Plain>> \o argv)
    IN  t.out = s.out /\ t.verb = s.verb /\ Does(t) = Does(s) /\ (s.out = "run" => t.rest = <<Plain>> \o s.rest)
(* the demo twice is the demo once, and comes before the benchmark *)
Demo == (Over(s) /\ s.out = "run") =>
    /\ Does(Parse(<<<<"-", "d">>>> \o argv)) = "demo"
    /\ Does(Parse(<<<<"-", "b">>>> \o argv)) = (IF s.demo THEN "demo" ELSE "benchmark")
(* the last verbosity counts *)
Last == (Over(s) /\ s.out = "run" /\ ~s.ended) => Parse(argv \o <<<<"-", "v", "2">>>>).verb = 2
(* nothing after "--" is an option *)
Ended == (Over(s) /\ s.out = "run") =>
    LET t == Parse(argv \o <<<<"-", "-">>, <<"-", "h">>, <<"-", "x">>>>)
    IN  t.out = "run" /\ t.rest = s.rest \o (IF s.ended THEN <<<<"-", "-">>>> ELSE << >>) \o <<<<"-", "h">>, <<"-", "x">>>>
Short == (Over(s) /\ s.out \in {"value", "unknown"}) => Exit(s) = 1 /\ Does(s) = "nothing"

(* only what is done can fail, and it is not said to have been done *)
Honest == Over(s) => \A w \in Worlds :
    /\ ExitIn(s, w) = 0 => Exit(s) = 0 /\ Can(s, w)
    /\ Does(s) = "nothing" => ExitIn(s, w) = Exit(s) /\ ~Fetches(s, w)
    /\ s.demo => ~Fetches(s, w)
WorldLine(w) == w \o ":" \o ToString(ExitIn(s, w)) \o ":" \o (IF Fetches(s, w) THEN "1" ELSE "0") \o "|"

RECURSIVE Join(_)
Join(a) == IF a = << >> THEN "" ELSE Head(a) \o Join(Tail(a))
RECURSIVE Lines(_)
Lines(as) == IF as = << >> THEN "" ELSE Join(Head(as)) \o "|" \o Lines(Tail(as))
Emit == Over(s) => PrintT(<<"V", Lines(argv), ToString(Exit(s)), s.out, Does(s), ToString(s.verb), Lines(s.rest), Join(s.about),
                          WorldLine("noroom") \o WorldLine("noimage") \o WorldLine("fetched") \o WorldLine("badimage")>>)
=============================================================================

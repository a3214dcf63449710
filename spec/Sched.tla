------------------------------- MODULE Sched --------------------------------
(***************************************************************************)
(* The loop over columns and the threads that share it (C04, C05, C09).    *)
(*                                                                         *)
(* Columns are clocked by threads 1..NThreads.  What a thread works with   *)
(* is either its own or shared with the other threads:                     *)
(*   traps     the states of the traps (fill levels, stored states)        *)
(*   scratch   loop temporaries: the free electrons just read              *)
(* A column takes for each of its rows the steps Read (its charge is read  *)
(* into scratch), Exchange (the traps act on it) and Write (the result is  *)
(* written); what the traps do is left open but for depending on the trap  *)
(* states and the charge: here they add up everything they see.            *)
(*                                                                         *)
(* How columns are divided among threads (Assign) is left open entirely,   *)
(* so every schedule of OpenMP - static, dynamic, guided, any number of    *)
(* threads - is one of the behaviours.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NThreads, NCols, NRows,
          Private,        \* threads have their own traps (a copy of the empty ones)
          PrivateScratch, \* threads have their own temporaries
          EmptyBetween,   \* traps are emptied between columns
          OneThread       \* "never", "always", or "shared" (only if traps are not emptied)

Threads == 1..NThreads
C == 1..NCols
R == 1..NRows

VARIABLES img, traps, scratch, out, todo, at, pc
vars == <<img, traps, scratch, out, todo, at, pc>>

Charge(c, r) == 10 * c + r              \* distinguishable packets
Serial == OneThread = "always" \/ (OneThread = "shared" /\ ~EmptyBetween)
T(t) == IF Private THEN t ELSE 1
X(t) == IF PrivateScratch THEN t ELSE 1

Init ==
    /\ img = [c \in C |-> [r \in R |-> <<Charge(c, r)>>]]
    /\ traps = [t \in Threads |-> << >>]
    /\ scratch = [t \in Threads |-> << >>]
    /\ out = [t \in Threads |-> << >>]
    /\ todo = C
    /\ at = [t \in Threads |-> <<0, 0>>]
    /\ pc = [t \in Threads |-> "take"]

(* A loop that is not parallel takes its columns in order *)
Take(t) ==
    /\ pc[t] = "take"
    /\ Serial => t = 1
    /\ \E c \in todo :
        /\ Serial => \A d \in todo : c <= d
        /\ todo' = todo \ {c}
        /\ at' = [at EXCEPT ![t] = <<c, 1>>]
    /\ pc' = [pc EXCEPT ![t] = "read"]
    /\ UNCHANGED <<img, traps, scratch, out>>
Read(t) ==
    /\ pc[t] = "read"
    /\ scratch' = [scratch EXCEPT ![X(t)] = img[at[t][1]][at[t][2]]]
    /\ pc' = [pc EXCEPT ![t] = "exchange"]
    /\ UNCHANGED <<img, traps, out, todo, at>>
Exchange(t) ==
    /\ pc[t] = "exchange"
    (* captured: the history of the traps up to now and the charge just read *)
    /\ traps' = [traps EXCEPT ![T(t)] = @ \o scratch[X(t)]]
    /\ out' = [out EXCEPT ![X(t)] = traps[T(t)] \o scratch[X(t)]]
    /\ pc' = [pc EXCEPT ![t] = "write"]
    /\ UNCHANGED <<img, scratch, todo, at>>
Write(t) ==
    /\ pc[t] = "write"
    /\ img' = [img EXCEPT ![at[t][1]][at[t][2]] = out[X(t)]]
    /\ IF at[t][2] < NRows
       THEN at' = [at EXCEPT ![t][2] = @ + 1] /\ pc' = [pc EXCEPT ![t] = "read"] /\ traps' = traps
       ELSE /\ at' = at
            /\ pc' = [pc EXCEPT ![t] = "take"]
            /\ traps' = IF EmptyBetween THEN [traps EXCEPT ![T(t)] = << >>] ELSE traps
    /\ UNCHANGED <<scratch, out, todo>>
Next == \E t \in Threads : Take(t) \/ Read(t) \/ Exchange(t) \/ Write(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* What one thread alone makes of it: all that the traps have seen so far *)
RECURSIVE Seen(_, _)
Seen(c, r) ==
    LET before == IF r > 1 THEN Seen(c, r - 1)
                  ELSE IF c = 1 \/ EmptyBetween THEN << >> ELSE Seen(c - 1, NRows)
    IN  Append(before, Charge(c, r))
Finished == todo = {} /\ \A t \in Threads : pc[t] = "take"

(* C04, C05, C09: every column that is done holds what one thread alone       *)
(* would have made of it, whoever did it and whenever                         *)
SameAsAlone ==
    \A c \in C : (c \notin todo /\ \A t \in Threads : at[t][1] = c => pc[t] = "take") =>
        \A r \in R : img[c][r] = Seen(c, r)
(* no column is lost *)
Completes == <>Finished
=============================================================================

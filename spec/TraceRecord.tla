----------------------------- MODULE TraceRecord -----------------------------
(***************************************************************************)
(* Histories of calls of the Python package that share a header (Y07), as   *)
(* recorded: cards after each call, and the covariance of each image        *)
(***************************************************************************)
EXTENDS Record, Integers, Json, IOUtils, TLC

Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE line
Init == line \in 1..Len(Lines)
Next == UNCHANGED line
Spec == Init /\ [][Next]_line
X == Lines[line]

Wanted == History(X.before, X.calls, X.version)
N == Len(X.calls)
Bad == {<<"header", k>> : k \in {k \in 1..N : X.headers[k] # Wanted[k]}}
       \cup {<<"covariance", k>> : k \in {k \in 1..N : X.cov[k] \notin Covariance(X.calls[k])}}
       \cup {<<"covariance of a part", k>> : k \in {k \in 1..N : X.part[k] # X.cov[k]}}
       \cup {<<"not its own", k>> : k \in {k \in 1..N : X.own[k] = 0}}
       \cup {<<"image", k>> : k \in {k \in 1..N : X.image[k] # X.plain[k]}}
Judge == PrintT(<<"V", X.id, IF Bad = {} THEN "accept" ELSE "reject " \o ToString(Bad)>>)
=============================================================================

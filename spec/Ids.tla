---------------------------------- MODULE Ids ----------------------------------
(****************************************************************************)
(* Requests in flight, kept by id: the peer opens requests under ids of its  *)
(* choice, answers and cancellations close them.  Ids are integers or        *)
(* strings; "1" and 1 are different ids.                                     *)
(****************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxOps, Ids    \* ids: JSON texts

AllIds == {"0", "1", "-1", "10", "2147483647", "-2147483648",
           "\"\"", "\"0\"", "\"1\"", "\"-1\"", "\"10\"", "\"01\"", "\"1.0\"", "\" 1\"", "\"2147483647\"",
           "\"a\"", "\"A\"", "\"null\"", "\"\\\"1\\\"\""}

VARIABLES open, log     \* open: id -> number of the request (0: none)
vars == <<open, log>>

Init == open = [i \in Ids |-> 0] /\ log = <<>>
\* Opening a request under an id in use replaces the older one.
Open(i) == /\ open' = [open EXCEPT ![i] = Len(log) + 1]
           /\ log' = Append(log, [op |-> "open", id |-> i, was |-> open[i]])
Close(i) == /\ open' = [open EXCEPT ![i] = 0]
            /\ log' = Append(log, [op |-> "close", id |-> i, was |-> open[i]])
Next == Len(log) < MaxOps /\ \E i \in Ids : Open(i) \/ Close(i)
Spec == Init /\ [][Next]_vars

\* An answer closes the request opened under that very id, if any.
RECURSIVE Last(_, _)
Last(n, i) == IF n = 0 THEN 0
              ELSE IF log[n].id = i THEN (IF log[n].op = "open" THEN n ELSE 0) ELSE Last(n - 1, i)
Found == \A n \in 1..Len(log) : log[n].was = Last(n - 1, log[n].id)
Inv == Found /\ \A i \in Ids : open[i] = Last(Len(log), i)

RECURSIVE Join(_)
Join(n) == IF n = 0 THEN "" ELSE Join(n - 1) \o "\t" \o log[n].op \o "\t" \o log[n].id \o "\t" \o ToString(log[n].was)
Emit == Len(log) = MaxOps => PrintT("@@" \o ToString(Cardinality({i \in Ids : open[i] # 0})) \o Join(Len(log)))
=============================================================================

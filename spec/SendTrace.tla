----------------------------- MODULE SendTrace ------------------------------
(****************************************************************************)
(* Recorded executions of many threads on one connection, checked against    *)
(* what a connection is: a queue per direction.  A call is logged before it  *)
(* is made and after it has returned; the queue accepts (or hands out) its   *)
(* message at some moment in between.  The order in which messages were      *)
(* accepted is the order in which they were read from the wire, and likewise *)
(* for what the peer wrote; so the only thing left to infer is when, and the *)
(* latest possible moment is as good as any.                                 *)
(*                                                                           *)
(* Traces: one JSON array per trace and line.  Events:                       *)
(*   ["s", c, m]     thread c calls send with message m                      *)
(*   ["ok", c]       it returns success       ["no", c]    it returns failure*)
(*   ["w", m]        the peer has read m from the wire                       *)
(*   ["p", m]        the peer begins to write m                              *)
(*   ["r", c]        thread c calls receive                                  *)
(*   ["m", c, m]     it returns m             ["e", c]     it returns empty  *)
(*   ["end"]         the peer has read everything; a successful join before  *)
(****************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANT File
Traces == ndJsonDeserialize(File)

VARIABLES t, l,        \* the trace, the next event
  open,                \* calls of send under way: [c -> m]
  pend,                \* receives under way: set of threads
  acc,                 \* messages accepted by the outbound queue, not read from the wire yet
  done,                \* accepted and known to their senders, or read by the peer
  given,               \* messages the peer may have written and no receive has returned, in order
  taken                \* messages a receive under way has taken: [c -> m]

vars == <<t, l, open, pend, acc, done, given, taken>>
Ev == Traces[t][l]
More == l <= Len(Traces[t])
Ext(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Less(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Empty == [x \in {} |-> 0]

\* The order of the wire, from the trace itself.
Wire == [i \in 1..Len(Traces) |-> LET s == SelectSeq(Traces[i], LAMBDA e : e[1] = "w") IN [k \in 1..Len(s) |-> s[k][2]]]
\* The order of receiving: by the peer's writes.
Inb == [i \in 1..Len(Traces) |-> LET s == SelectSeq(Traces[i], LAMBDA e : e[1] = "p") IN [k \in 1..Len(s) |-> s[k][2]]]

Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ open = Empty /\ pend = {} /\ acc = 0 /\ done = {} /\ given = 0 /\ taken = Empty

\* acc: how many messages of the wire order have been accepted; given: how many of the inbound order have been taken.
Accepted == {Wire[t][i] : i \in 1..acc}
Adv == l' = l + 1 /\ UNCHANGED t

Need == IF ~More THEN 0
        ELSE IF Ev[1] = "ok" THEN (IF open[Ev[2]] \in Accepted THEN 0 ELSE 1)
        ELSE IF Ev[1] = "w" THEN (IF Ev[2] \in Accepted THEN 0 ELSE 1) ELSE 0

\* The next message of the wire is accepted; somebody must be sending it now.
Accept ==
  /\ Need = 1 /\ acc < Len(Wire[t])
  /\ \E c \in DOMAIN open : open[c] = Wire[t][acc + 1]
  /\ Wire[t][acc + 1] \notin Accepted                         \* once only
  /\ acc' = acc + 1
  /\ UNCHANGED <<t, l, open, pend, done, given, taken>>

Call == /\ More /\ Ev[1] = "s" /\ Ev[2] \notin DOMAIN open /\ Adv
        /\ open' = Ext(open, Ev[2], Ev[3]) /\ UNCHANGED <<pend, acc, done, given, taken>>
Ok == /\ More /\ Ev[1] = "ok" /\ Need = 0 /\ Adv
      /\ open' = Less(open, Ev[2]) /\ done' = done \cup {open[Ev[2]]} /\ UNCHANGED <<pend, acc, given, taken>>
No == /\ More /\ Ev[1] = "no" /\ Adv
      /\ \A i \in 1..Len(Wire[t]) : Wire[t][i] # open[Ev[2]]      \* never delivered
      /\ open' = Less(open, Ev[2]) /\ UNCHANGED <<pend, acc, done, given, taken>>
Read == /\ More /\ Ev[1] = "w" /\ Need = 0 /\ Adv
        /\ UNCHANGED <<open, pend, acc, done, given, taken>>

\* Inbound: nothing is received before the peer began to write it; each message once, in order.
Written == Cardinality({k \in 1..(l - 1) : Traces[t][k][1] = "p"})
Begin == /\ More /\ Ev[1] = "p" /\ Adv /\ UNCHANGED <<open, pend, acc, done, given, taken>>
RCall == /\ More /\ Ev[1] = "r" /\ Adv /\ pend' = pend \cup {Ev[2]} /\ UNCHANGED <<open, acc, done, given, taken>>
\* The message after the last taken goes to a receive under way - the one which will return it.
WhoGets(m) == LET S == {k \in l..Len(Traces[t]) : Traces[t][k][1] = "m" /\ Traces[t][k][3] = m} IN
              IF S = {} THEN 0 ELSE Traces[t][CHOOSE k \in S : \A j \in S : k <= j][2]
Hand == /\ More /\ Ev[1] = "m" /\ ~(Ev[2] \in DOMAIN taken)
        /\ given < Written
        /\ LET m == Inb[t][given + 1] c == WhoGets(m) IN
             /\ c \in pend /\ c \notin DOMAIN taken
             /\ taken' = Ext(taken, c, m) /\ given' = given + 1
        /\ UNCHANGED <<t, l, open, pend, acc, done>>
Got == /\ More /\ Ev[1] = "m" /\ Ev[2] \in DOMAIN taken /\ taken[Ev[2]] = Ev[3] /\ Adv
       /\ taken' = Less(taken, Ev[2]) /\ pend' = pend \ {Ev[2]} /\ UNCHANGED <<open, acc, done, given>>
None == /\ More /\ Ev[1] = "e" /\ Ev[2] \notin DOMAIN taken /\ Adv
        /\ pend' = pend \ {Ev[2]} /\ UNCHANGED <<open, acc, done, given, taken>>
\* Everything accepted has been read, everything written has been received.
End == /\ More /\ Ev[1] = "end" /\ Adv
       /\ acc = Len(Wire[t]) /\ DOMAIN open = {} /\ done = Accepted
       /\ given = Len(Inb[t]) /\ DOMAIN taken = {}
       /\ UNCHANGED <<open, pend, acc, done, given, taken>>

Next == Accept \/ Call \/ Ok \/ No \/ Read \/ Begin \/ RCall \/ Hand \/ Got \/ None \/ End
Spec == Init /\ [][Next]_vars

NoDouble == acc <= Len(Wire[t]) /\ given <= Len(Inb[t])
Inv == NoDouble
Emit == ~ENABLED Next => PrintT("@@" \o ToString(t) \o "\t" \o (IF More THEN "stuck " \o ToString(l) ELSE "ok"))
=============================================================================

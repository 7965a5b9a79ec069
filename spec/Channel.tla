------------------------------ MODULE Channel ------------------------------
(****************************************************************************)
(* The two channels of a pair of connections (Connection::memory, or two     *)
(* connections put together from channels of any capacity), and the four     *)
(* ways to send on them.  One action per call of the API; the calls follow   *)
(* each other, so a call is only made where it does not have to wait for     *)
(* another one.  `hist` is what the calls were and what they must return.    *)
(****************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANTS
  Cap,      \* capacity of either channel; 99: unbounded
  Modes,    \* ways to send: "plain", "try", "timed", "deadline", "past"
  Handles,  \* TRUE: sender and receiver of an end may be cloned and dropped separately
  MaxOps

Ends == {"A", "B"}
Other(e) == IF e = "A" THEN "B" ELSE "A"
AllModes == {"plain", "try", "timed", "deadline", "past"}

VARIABLES
  q,        \* q[e]: messages sent to end e, not yet received
  ns, nr,   \* handles on the sender and on the receiver of each end
  sent, rcv,\* sent[e], rcv[e]: messages accepted from and received by end e
  n,        \* messages made so far
  hist

vars == <<q, ns, nr, sent, rcv, n, hist>>

Init ==
  /\ q = [e \in Ends |-> <<>>]
  /\ ns = [e \in Ends |-> 1] /\ nr = [e \in Ends |-> 1]
  /\ sent = [e \in Ends |-> <<>>] /\ rcv = [e \in Ends |-> <<>>]
  /\ n = 0 /\ hist = <<>>

Note(op, e, x, res) == hist' = Append(hist, op \o "\t" \o e \o "\t" \o x \o "\t" \o res)

Room(e) == Len(q[e]) < Cap
Open(e) == nr[Other(e)] > 0       \* somebody can receive what e sends

Send(e, mode) ==
  /\ ns[e] > 0
  /\ n' = n + 1
  /\ LET to == Other(e) IN
     IF ~Open(e) THEN Note("send", e, mode, "disconnected") /\ UNCHANGED <<q, sent>>
     ELSE IF Room(to)
     THEN /\ q' = [q EXCEPT ![to] = Append(@, n + 1)]
          /\ sent' = [sent EXCEPT ![e] = Append(@, n + 1)]
          /\ Note("send", e, mode, "ok")
     ELSE /\ mode # "plain"       \* would wait
          /\ Note("send", e, mode, IF mode = "try" THEN "full" ELSE "timeout")
          /\ UNCHANGED <<q, sent>>
  /\ UNCHANGED <<ns, nr, rcv>>

Recv(e) ==
  /\ nr[e] > 0
  /\ IF q[e] # <<>>
     THEN /\ rcv' = [rcv EXCEPT ![e] = Append(@, Head(q[e]))]
          /\ q' = [q EXCEPT ![e] = Tail(@)]
          /\ Note("recv", e, "-", ToString(Head(q[e])))
     ELSE /\ Note("recv", e, "-", IF ns[Other(e)] = 0 THEN "disconnected" ELSE "empty")
          /\ UNCHANGED <<q, rcv>>
  /\ UNCHANGED <<ns, nr, sent, n>>

\* The last receiver takes what was not received with it.
DropR(e) ==
  /\ nr[e] > 0
  /\ nr' = [nr EXCEPT ![e] = @ - 1]
  /\ q' = IF nr[e] = 1 THEN [q EXCEPT ![e] = <<>>] ELSE q
  /\ Note("drop", e, "receiver", "-")
  /\ UNCHANGED <<ns, sent, rcv, n>>

DropS(e) ==
  /\ ns[e] > 0
  /\ ns' = [ns EXCEPT ![e] = @ - 1]
  /\ Note("drop", e, "sender", "-")
  /\ UNCHANGED <<q, nr, sent, rcv, n>>

DropBoth(e) ==
  /\ ns[e] = 1 /\ nr[e] = 1
  /\ ns' = [ns EXCEPT ![e] = 0] /\ nr' = [nr EXCEPT ![e] = 0]
  /\ q' = [q EXCEPT ![e] = <<>>]
  /\ Note("drop", e, "both", "-")
  /\ UNCHANGED <<sent, rcv, n>>

CloneS(e) ==
  /\ ns[e] = 1 /\ ns' = [ns EXCEPT ![e] = 2]
  /\ Note("clone", e, "sender", "-")
  /\ UNCHANGED <<q, nr, sent, rcv, n>>

CloneR(e) ==
  /\ nr[e] = 1 /\ nr' = [nr EXCEPT ![e] = 2]
  /\ Note("clone", e, "receiver", "-")
  /\ UNCHANGED <<q, ns, sent, rcv, n>>

Next ==
  /\ Len(hist) < MaxOps
  /\ \E e \in Ends :
       \/ \E m \in Modes : Send(e, m)
       \/ Recv(e) \/ DropBoth(e)
       \/ Handles /\ (DropR(e) \/ DropS(e) \/ CloneS(e) \/ CloneR(e))

Spec == Init /\ [][Next]_vars

(******************************** properties *******************************)

IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s

\* What an end has received is a prefix of what the other had accepted; what is missing is on its
\* way as long as anybody can receive it.
Ordered == \A e \in Ends :
  /\ IsPrefix(rcv[e], sent[Other(e)])
  /\ nr[e] > 0 => rcv[e] \o q[e] = sent[Other(e)]
Apart == \A i \in 1..Len(sent["A"]), j \in 1..Len(sent["B"]) : sent["A"][i] # sent["B"][j]
Bounded == \A e \in Ends : Len(q[e]) <= Cap
Inv == Ordered /\ Apart /\ Bounded

\* Nothing one end does to its own messages touches the other direction.
Independent == [][\A e \in Ends : sent'[e] # sent[e] => q'[e] = q[e] /\ rcv' = rcv]_vars
Kept == [][\A e \in Ends : IsPrefix(sent[e], sent'[e]) /\ IsPrefix(rcv[e], rcv'[e])]_vars

Emit == Len(hist) = MaxOps =>
  LET RECURSIVE Join(_, _)
      Join(s, i) == IF i > Len(s) THEN "" ELSE (IF i > 1 THEN "|" ELSE "") \o s[i] \o Join(s, i + 1)
  IN PrintT("@@" \o ToString(Cap) \o "\t" \o Join(hist, 1))
=============================================================================

------------------------------ MODULE SessionGen ------------------------------
(* Every client script up to a length, and for each the set of outcomes the   *)
(* specification allows; each terminal state is printed as one JSON line.     *)
EXTENDS Session, TLC, Json

CONSTANTS Alphabet, MaxLen, MaxTail, Endings,
  ExtraFile   \* more scripts, one JSON array of kinds per line; "": none

Extra == IF ExtraFile = "" THEN {} ELSE LET d == ndJsonDeserialize(ExtraFile) IN {d[i] : i \in 1..Len(d)}

Seqs(k) == UNION {[1..m -> Alphabet] : m \in 0..k}
Scripts == Seqs(MaxLen) \cup {<<"init", "inited">> \o t : t \in Seqs(MaxTail)} \cup Extra

Init == \E s \in Scripts, e \in Endings : InitWith(s, e)
Spec == Init /\ [][Next]_vars /\ Fairness

\* Long histories: the client has written everything at once, and reads at once; neither
\* makes a difference to anybody else's choices.
InitLong == /\ \E s \in Extra, e \in Endings :
              /\ script = s /\ ending = e /\ inq = [i \in 1..Len(s) |-> i] /\ cw = Len(s)
            /\ cclosed = FALSE /\ copen = TRUE
            /\ rd = (IF Bytes THEN "read" ELSE "done") /\ rdm = NoMsg /\ rres = "none"
            /\ sv = "hs1" /\ svm = NoMsg /\ hs = "none" /\ cb = 0 /\ sd = "none"
            /\ live = TRUE /\ eaten = <<>> /\ got = <<>> /\ sent = <<>>
            /\ wr = (IF Bytes THEN "idle" ELSE "done") /\ wrm = NoReply /\ wres = "none"
            /\ outq = <<>> /\ cread = <<>> /\ jn = "none"
NextLong == IF outq # <<>> /\ copen THEN ClientRead ELSE Next
SpecLong == InitLong /\ [][NextLong]_vars /\ WF_vars(NextLong)

Terminal == sv = "end" /\ outq = <<>> /\ wr = "done" /\ rd = "done"
Outcome == [s |-> script, e |-> ending, hs |-> hs, cb |-> cb, sd |-> sd,
            got |-> got, rep |-> cread, jn |-> jn, closed |-> cclosed]
Emit == Terminal => PrintT("@@" \o ToJson(Outcome))
=============================================================================
